From 8715c2cde9abc22988acb94d033de68b62e24226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 01/51] fix: render a data-set in memory before it is stored in
 the file

A rejected data-set left its first records in the file (or, when overwriting,
an emptied file), and overwriting with a binary 58 lost the header because the
file was truncated again before the samples and the closing delimiter.
---
 pyuff/datasets/dataset_58.py | 16 +++---------
 pyuff/pyuff.py               | 47 ++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..6e2419a 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,13 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
+            # the samples follow the (text) header in the same stream
+            fh.flush()
             # write data
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..a1bb7b8 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -40,6 +40,7 @@ Notes:
     >>> uff_file.file_exists()
     True
 """
+import io
 import os
 import numpy as np
 import warnings
@@ -416,26 +417,17 @@ class UFF:
         an alias (aka pointer), this is reflected at the caller too.
         
         """
-        if mode.lower() == 'overwrite':
-            # overwrite mode
-            try:
-                fh = open(self._filename, 'wt', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        elif mode.lower() == 'add':
-            # add (append) mode
-            try:
-                fh = open(self._filename, 'at', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        else:
+        if mode.lower() not in ('overwrite', 'add'):
             raise Exception('Unknown mode: ' + mode)
+        # The data-set is first rendered in memory, so that a data-set which can
+        # not be written leaves the file as it was.
+        buffer = io.BytesIO()
+        fh = io.TextIOWrapper(buffer, encoding='utf-8')
         try:
             # Actual writing
             try:
                 set_type = dset['type']
             except:
-                fh.close()
                 raise Exception('Data-set\'s dictionary is missing the required \'type\' key')
             # handle nan or inf
             if 'data' in dset.keys():
@@ -474,13 +466,32 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
-        except:
-            fh.close()
-            raise  # re-raise the last exception
-        else:
+            fh.flush()
+            block = buffer.getvalue()
+        finally:
             fh.close()
+        self._store(block, mode)
         self.refresh()
 
+    def _store(self, block, mode):
+        """Stores an already rendered data-set (bytes) to the file."""
+        try:
+            if mode.lower() == 'overwrite':
+                fh = open(self._filename, 'wb')
+            else:
+                fh = open(self._filename, 'ab')
+        except:
+            raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+        size = fh.tell()
+        try:
+            with fh:
+                fh.write(block)
+        except:
+            # do not leave a part of the data-set at the end of the file
+            self._refreshed = False
+            os.truncate(self._filename, size)
+            raise
+
 
 if __name__ == '__main__':
     pass
\ No newline at end of file
-- 
2.43.0


From 87710286cdba4c28ec14e9b19a29ca30719b4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/51] fix: append to a file whose last line has no newline

The opening delimiter was put on the line of the last closing delimiter, so
neither was recognised and the appended data-set was lost.
---
 pyuff/pyuff.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index a1bb7b8..790d9b5 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -485,6 +485,9 @@ class UFF:
         size = fh.tell()
         try:
             with fh:
+                if block and size > 0 and self._last_byte() not in b'\r\n':
+                    # the delimiter must start on a line of its own
+                    fh.write(b'\n')
                 fh.write(block)
         except:
             # do not leave a part of the data-set at the end of the file
@@ -492,6 +495,12 @@ class UFF:
             os.truncate(self._filename, size)
             raise
 
+    def _last_byte(self):
+        """Returns the last byte of the (non-empty) file."""
+        with open(self._filename, 'rb') as fh:
+            fh.seek(-1, os.SEEK_END)
+            return fh.read(1)
+
 
 if __name__ == '__main__':
     pass
\ No newline at end of file
-- 
2.43.0


From 5023666d27e629cff6be527a3c9add23920fd6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 03/51] fix: refresh forgets the sets of the previous file
 contents

An emptied, replaced or deleted file was still reported with its former number
of sets and types, and reading all sets used the number from before the refresh.
---
 pyuff/pyuff.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 790d9b5..c93fa40 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -170,6 +170,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # forget the sets of the previous contents
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
@@ -258,6 +263,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -265,11 +275,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From 007ef292edebf2c857bbd6a91b8191288a753a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 04/51] fix: report binary data-sets in get_set_formats

Indexing bytes yields an integer, so the test for 'b' always failed.
---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index c93fa40..8860637 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -233,7 +233,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From b3aff7029fda45aa6313f0f3f9298261e5112970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 05/51] fix: find the delimiters of a file as the format
 defines them

'    -1' at the end of a data line (a color or mode number of -1, a name) was
taken for a delimiter, as were samples of a binary 58 spelling one; a delimiter
padded to 80 columns at the very end of the file was not recognised.
---
 pyuff/pyuff.py | 104 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 28 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 8860637..d532623 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -42,6 +42,7 @@ Notes:
 """
 import io
 import os
+import re
 import numpy as np
 import warnings
 warnings.simplefilter("default")
@@ -66,6 +67,76 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
 
+# a delimiter: '    -1' followed by the end of line (or file), or by blanks up to column 80
+_DELIMITER = re.compile(rb'    -1(?: {74}| *(?=[\r\n]|\Z))')
+_END_OF_LINE = re.compile(rb' *(?:\r\n|\r|\n|\Z)')
+_ID_LINE = re.compile(rb' {0,5}[0-9]+')
+
+
+def _at_line_start(data, ind):
+    return ind == 0 or data[ind - 1] in b'\r\n'
+
+
+def _find_opening(data, ind):
+    """Returns the match of the first opening delimiter at or after ind, or None."""
+    for tag in _DELIMITER.finditer(data, ind):
+        if _at_line_start(data, tag.start()) or data[:tag.start()] == b'\xef\xbb\xbf':
+            return tag
+
+
+def _closes_at_line_end(data, tag):
+    """
+    Decides whether a '    -1' at the end of a non-empty line closes the data-set
+    (see fix_58b) or belongs to its data: it must be followed by the opening
+    delimiter of the next data-set, or by nothing at all.
+    """
+    if data[tag.end() - 1:tag.end()] == b' ':
+        return False
+    following = _END_OF_LINE.match(data, tag.end())
+    if not data[following.end():following.end() + 80].strip():
+        return not data[following.end():].strip()
+    opening = _DELIMITER.match(data, following.end())
+    if not opening:
+        return False
+    following = _END_OF_LINE.match(data, opening.end())
+    return bool(following and _ID_LINE.match(data[following.end():following.end() + 6]))
+
+
+def _find_closing(data, ind):
+    """Returns the match of the delimiter closing the data-set whose opening ends at ind, or None."""
+    lines = data[ind:ind + 2000].splitlines()
+    binary = len(lines) > 1 and lines[1][:7].strip().lower() == b'58b'
+    if binary:
+        # the samples may contain anything, hence skip them if their length is known
+        start = ind
+        for _ in range(13):
+            start = data.find(b'\n', start) + 1
+            if start == 0:
+                break
+        n_bytes = lines[1][31:43].strip()
+        if start > 0 and n_bytes.isdigit():
+            tag = re.compile(rb'[\r\n]{0,2}(?=    -1)').match(data, start + int(n_bytes))
+            tag = tag and _DELIMITER.match(data, tag.end())
+            if tag:
+                return tag
+    for tag in _DELIMITER.finditer(data, ind):
+        if binary or _at_line_start(data, tag.start()) or _closes_at_line_end(data, tag):
+            return tag
+
+
+def _find_blocks(data):
+    """Returns the start and end offsets of all the complete data-sets in data."""
+    blocks = []
+    ind = 0
+    while True:
+        opening = _find_opening(data, ind)
+        closing = opening and _find_closing(data, opening.end())
+        if not closing:
+            return blocks
+        blocks.append((opening.start(), closing.start() - 1))
+        ind = closing.end()
+
+
 class UFF:
     """
     Manages data reading and writing from/to the UFF file.
@@ -184,42 +255,20 @@ class UFF:
             raise Exception('Cannot access the file %s' % self._filename)
         else:
             try:
-                # Parses the entire file for '    -1' tags and extracts
-                # the corresponding indices
-                data = fh.read()
-                data_len = len(data)
-                ind = -1
-                block_ind = []
-                while True:
-                    ind = data.find(b'    -1', ind + 1)
-                    if ind == -1:
-                        break
-                    if ind+6 == data_len:
-                        block_ind.append(ind)
-                    # Check if the block is valid and ends with LF or CR
-                    elif ind+6 < data_len and data[ind+6] in [10, 13]:
-                        block_ind.append(ind)
-                    # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
-                        b'                                                                          ':
-                        block_ind.append(ind)
-                    
-                block_ind = np.asarray(block_ind, dtype='int64')
-
-                # Constructs block indices of start and end values; each pair
+                # Parses the entire file for data-sets. Each pair of block indices
                 # points to start and end offset of the data-set (block) data,
                 # but, the start '    -1' tag is included while the end one is
                 # excluded.
-                n_blocks = int(np.floor(len(block_ind) / 2.0))
+                data = fh.read()
+                block_ind = np.asarray(_find_blocks(data), dtype='int64')
+                n_blocks = len(block_ind)
                 if n_blocks == 0:
                     # No valid blocks found but the file is still considered
                     # being refreshed
                     fh.close()
                     self._refreshed = True
                     return self._refreshed
-                self._block_ind = np.zeros((n_blocks, 2), dtype='int64')
-                self._block_ind[:, 0] = block_ind[:-1:2].copy()
-                self._block_ind[:, 1] = block_ind[1::2].copy() - 1
+                self._block_ind = block_ind
 
                 # Go through all the data-sets (blocks) and extract data-set
                 # type and the property whether the data-set is in binary
@@ -238,7 +287,6 @@ class UFF:
                     except:
                         # Some non-valid blocks found; ignore the exception
                         pass
-                del block_ind
             except:
                 fh.close()
                 raise Exception('Error refreshing UFF file: ' + self._filename)
-- 
2.43.0


From da3974c1bf783f5bfa58d30a5c8b83707425e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 06/51] fix: n_bytes of a binary 58 counts all its samples

The imaginary parts and an uneven abscissa were left out of the byte count.
---
 pyuff/datasets/dataset_58.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 6e2419a..1ab60b5 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -888,18 +888,18 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
 
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
-
-        if 'n_bytes' in dset.keys():
-            dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
         is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
+        # the samples of a binary data-set, including the imaginary parts and an uneven abscissa
+        n_bytes = num_pts * ((1 if is_r else 2) + (0 if is_even else 1)) * (8 if is_double else 4)
+        if 'n_bytes' in dset.keys():
+            dset['n_bytes'] = n_bytes
+
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-- 
2.43.0


From d72f77424483ec01918fb19798ee74a6b1b1ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 07/51] fix: write single-precision binary 58 samples in single
 precision

With force_double=False the header announced 4-byte samples but 8-byte
samples were stored, so the set could not be read back.
---
 pyuff/datasets/dataset_58.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1ab60b5..5e7254d 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -958,15 +958,17 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
         if dset['binary']:
             # the samples follow the (text) header in the same stream
             fh.flush()
-            # write data
+            # write data, in the precision given in the header
+            if not is_double:
+                data = np.clip(data, -np.finfo('f').max, np.finfo('f').max)
+            fmt = 'd' if is_double else 'f'
             if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<' + fmt, datai)) for datai in data]
             else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('>' + fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From fdcb893ef3e5ef2a21980e4cd2b71d722c41b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 08/51] fix: write a data-set 58 with a single point

---
 pyuff/datasets/dataset_58.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 5e7254d..1e66025 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -903,7 +903,10 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        if num_pts > 1:
+            dx = dset['x'][1] - dset['x'][0]
+        else:
+            dx = dset.get('abscissa_inc', 0.)  # can not be determined from a single point
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From 5ed149871cddd999d803f54f65bee9c69b12548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 09/51] fix: default of the optional orddenom_spec_data_type of
 data-set 58

---
 pyuff/datasets/dataset_58.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1e66025..3d4dfab 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -867,6 +867,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 'spec_data_type': 0,
                 'abscissa_spec_data_type': 0,
                 'ordinate_spec_data_type': 0,
+                'orddenom_spec_data_type': 0,
                 'z_axis_spec_data_type': 0,
                 'version_num': 0,
                 'abscissa_spacing': 0}
-- 
2.43.0


From f7a150dcd896ad1d73fd11a3f4c47f4aa57b9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 10/51] fix: cut text to the width of its field

A longer text moved the fields after it out of their columns, so that
they were read back wrong or not at all.
---
 pyuff/datasets/dataset_151.py  | 14 +++++++-------
 pyuff/datasets/dataset_164.py  |  2 +-
 pyuff/datasets/dataset_18.py   |  2 +-
 pyuff/datasets/dataset_1858.py |  2 +-
 pyuff/datasets/dataset_2400.py |  6 +++---
 pyuff/datasets/dataset_2414.py | 12 ++++++------
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  2 +-
 pyuff/datasets/dataset_2467.py |  2 +-
 pyuff/datasets/dataset_55.py   | 10 +++++-----
 pyuff/datasets/dataset_58.py   | 20 ++++++++++----------
 pyuff/datasets/dataset_82.py   |  2 +-
 12 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..3b42b6e 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -61,15 +61,15 @@ def _write151(fh, dset):
                                         'time_file_written': ts})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
-        fh.write('%-80s\n' % dset['model_name'])
-        fh.write('%-80s\n' % dset['description'])
-        fh.write('%-80s\n' % dset['db_app'])
-        fh.write('%-10s%-10s%10s%10s%10s\n' % (dset['date_db_created'],
+        fh.write('%-80.80s\n' % dset['model_name'])
+        fh.write('%-80.80s\n' % dset['description'])
+        fh.write('%-80.80s\n' % dset['db_app'])
+        fh.write('%-10.10s%-10.10s%10s%10s%10s\n' % (dset['date_db_created'],
                                                 dset['time_db_created'], dset['version_db1'], dset['version_db2'],
                                                 dset['file_type']))
-        fh.write('%-10s%-10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
-        fh.write('%-80s\n' % dset['program'])
-        fh.write('%-10s%-10s\n' % (dset['date_file_written'], dset['time_file_written']))
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
+        fh.write('%-80.80s\n' % dset['program'])
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_file_written'], dset['time_file_written']))
         fh.write('%6i\n' % -1)
     except KeyError as msg:
         raise Exception('The required key \'' + msg.args[0] + '\' not present when writing data-set #151')
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index 9b0852b..86665c6 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -52,7 +52,7 @@ def _write164(fh, dset):
                                         'temp_mode': 1})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 164, ' '))
-        fh.write('%10i%20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
+        fh.write('%10i%20.20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
         str = '%25.16e%25.16e%25.16e\n%25.16e\n' % (
             dset['length'], dset['force'], dset['temp'], dset['temp_offset'])
         str = str.replace('e+', 'D+')
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..6d23b73 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -60,7 +60,7 @@ def _write18(fh, dset):
                 int(dset['ref_cs_num'][i]),
                 int(dset['color'][i]),
                 int(dset['method'][i])))
-            fh.write('%-40s\n' % dset['cs_name'][i])
+            fh.write('%-40.40s\n' % dset['cs_name'][i])
             fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                 dset['ref_o'][i][0], dset['ref_o'][i][1], dset['ref_o'][i][2],
                 dset['x_point'][i][0], dset['x_point'][i][1], dset['x_point'][i][2]))
diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..bad58cb 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -154,7 +154,7 @@ def _write1858(fh, dset):
 
         fh.write('%15.7e%15.7e%15.7e%15.7e%15.7e\n' % (0, 0, 0, 0, 0))
 
-        fh.write('%-4s%2s%-4s\n' % (
+        fh.write('%-4.4s%2s%-4.4s\n' % (
             dset['response_direction'],
             '',
             dset['reference_direction'],
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index 325014d..b1f2812 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -64,10 +64,10 @@ def _write2400(fh, dset):
         fh.write('%6i\n%6i%74s\n' % (-1, 2400, ' '))
         fh.write('%12i%6i%6i%12i\n' % (dset['model_uid'], dset['entity_type'],
                                         dset['entity_subtype'], dset['version_number']))
-        fh.write('%-80s\n' % dset['entity_name'])
-        fh.write('%-80s\n' % dset['part_number'])
+        fh.write('%-80.80s\n' % dset['entity_name'])
+        fh.write('%-80.80s\n' % dset['part_number'])
         fh.write('%s\n' % ''.join(['%2i' % v for v in dset['status_mask']]))
-        fh.write('%-10s%-10s%12i%12i%12i\n' % (dset['date'], dset['time'],
+        fh.write('%-10.10s%-10.10s%12i%12i%12i\n' % (dset['date'], dset['time'],
                                                  dset['idm_version_id'], dset['idm_item_id'],
                                                  dset['primary_parent_uid']))
         fh.write('%12i\n' % dset['optimization_switches'])
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..44a35d3 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -564,13 +564,13 @@ def _write2414(fh, dset):
 
         # Write general fields
         fh.write('%10i\n' % (dset['analysis_dataset_label'])) #Loadcase number (DS2414_num)
-        fh.write('%-80s\n' % (dset['analysis_dataset_name'])) #usually with the frequency
+        fh.write('%-80.80s\n' % (dset['analysis_dataset_name'])) #usually with the frequency
         fh.write('%10i\n' % (dset['dataset_location']))
-        fh.write('%-80s\n' % dset['id1'])
-        fh.write('%-80s\n' % dset['id2'])
-        fh.write('%-80s\n' % dset['id3']) #usually with the frequency
-        fh.write('%-80s\n' % dset['id4']) #usually with the loadcase
-        fh.write('%-80s\n' % dset['id5'])
+        fh.write('%-80.80s\n' % dset['id1'])
+        fh.write('%-80.80s\n' % dset['id2'])
+        fh.write('%-80.80s\n' % dset['id3']) #usually with the frequency
+        fh.write('%-80.80s\n' % dset['id4']) #usually with the loadcase
+        fh.write('%-80.80s\n' % dset['id5'])
 
         fh.write('%10i%10i%10i%10i%10i%10i\n' % (
                                         dset['model_type'], 
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 66b4cc0..e6ffa7e 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -58,7 +58,7 @@ def _write2420(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 2420, ' '))
         fh.write('%10i\n' % (dset['Part_UID']))
-        fh.write('%-80s\n' % (dset['Part_Name']))
+        fh.write('%-80.80s\n' % (dset['Part_Name']))
 
         # -- Check Dimensions of input arrays
         num_CS = len(dset['CS_sys_labels'])
@@ -66,7 +66,7 @@ def _write2420(fh, dset):
             raise IndexError("Values missing for one or more CS")
         for node in range(num_CS):
             fh.write('%10i%10i%10i\n' % (dset['CS_sys_labels'][node], dset['CS_types'][node], dset['CS_colors'][node]))
-            fh.write('%s\n' % dset['CS_names'][node])
+            fh.write('%.80s\n' % dset['CS_names'][node])
             fh.write('%25.16e%25.16e%25.16e\n' % tuple(dset['CS_matrices'][node][0, :]))
             fh.write('%25.16e%25.16e%25.16e\n' % tuple(dset['CS_matrices'][node][1, :]))
             fh.write('%25.16e%25.16e%25.16e\n' % tuple(dset['CS_matrices'][node][2, :]))
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..abddf8c 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -125,7 +125,7 @@ def _write2429(fh, dset):
                                                             dset['active_contact_set_no_for_group'],
                                                             len(dset['entity_type_code'])))
         # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
+        fh.write('%-40.40s\n' % (dset['group_name']))
 
         # Record 3-N
         # Write the full lines (which have 4 pairs)
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..373eb23 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -76,7 +76,7 @@ def _write2467(fh, dset):
                                                              group['active_contact_set_no_for_group'],
                                                              len(group['entity_type_code'])))
             # Record 2
-            fh.write('%-40s\n' % (group['group_name']))
+            fh.write('%-40.40s\n' % (group['group_name']))
 
             # Record 3-N
             # Write the full lines (which have 4 pairs)
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..d71fb0d 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -401,11 +401,11 @@ def _write55(fh, dset):
             data_type = 2
         # Write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 55, ' '))
-        fh.write('%-80s\n' % dset['id1'])
-        fh.write('%-80s\n' % dset['id2'])
-        fh.write('%-80s\n' % dset['id3'])
-        fh.write('%-80s\n' % dset['id4'])
-        fh.write('%-80s\n' % dset['id5'])
+        fh.write('%-80.80s\n' % dset['id1'])
+        fh.write('%-80.80s\n' % dset['id2'])
+        fh.write('%-80.80s\n' % dset['id3'])
+        fh.write('%-80.80s\n' % dset['id4'])
+        fh.write('%-80.80s\n' % dset['id5'])
         fh.write('%10i%10i%10i%10i%10i%10i\n' %
                     (dset['model_type'], dset['analysis_type'], dset['data_ch'],
                     dset['spec_data_type'], data_type, n_data_per_node))
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d4dfab..87c7f3b 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -917,31 +917,31 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             fh.write('b%6i%6i%12i%12i%6i%6i%12i%12i\n' % (bo, 2, 11, n_bytes, 0, 0, 0, 0))
         else:
             fh.write('%74s\n' % ' ')
-        fh.write('%-80s\n' % dset['id1'])
-        fh.write('%-80s\n' % dset['id2'])
-        fh.write('%-80s\n' % dset['id3'])
-        fh.write('%-80s\n' % dset['id4'])
-        fh.write('%-80s\n' % dset['id5'])
-        fh.write('%5i%10i%5i%10i %10s%10i%4i %10s%10i%4i\n' %
+        fh.write('%-80.80s\n' % dset['id1'])
+        fh.write('%-80.80s\n' % dset['id2'])
+        fh.write('%-80.80s\n' % dset['id3'])
+        fh.write('%-80.80s\n' % dset['id4'])
+        fh.write('%-80.80s\n' % dset['id5'])
+        fh.write('%5i%10i%5i%10i %10.10s%10i%4i %10.10s%10i%4i\n' %
                     (dset['func_type'], dset['func_id'], dset['ver_num'], dset['load_case_id'],
                     dset['rsp_ent_name'], dset['rsp_node'], dset['rsp_dir'], dset['ref_ent_name'],
                     dset['ref_node'], dset['ref_dir']))
         fh.write('%10i%10i%10i%13.5e%13.5e%13.5e\n' % (ord_data_type, num_pts, is_even,
                                                         is_even * dset['abscissa_min'], is_even * dx,
                                                         dset['z_axis_value']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['abscissa_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['abscissa_spec_data_type'],
                                                     dset['abscissa_len_unit_exp'], dset['abscissa_force_unit_exp'],
                                                     dset['abscissa_temp_unit_exp'], dset['abscissa_axis_lab'],
                                                     dset['abscissa_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['ordinate_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['ordinate_spec_data_type'],
                                                     dset['ordinate_len_unit_exp'], dset['ordinate_force_unit_exp'],
                                                     dset['ordinate_temp_unit_exp'], dset['ordinate_axis_lab'],
                                                     dset['ordinate_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['orddenom_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['orddenom_spec_data_type'],
                                                     dset['orddenom_len_unit_exp'], dset['orddenom_force_unit_exp'],
                                                     dset['orddenom_temp_unit_exp'], dset['orddenom_axis_lab'],
                                                     dset['orddenom_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['z_axis_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['z_axis_spec_data_type'],
                                                     dset['z_axis_len_unit_exp'], dset['z_axis_force_unit_exp'],
                                                     dset['z_axis_temp_unit_exp'], dset['z_axis_axis_lab'],
                                                     dset['z_axis_axis_units_lab']))
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..a3165a8 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -57,7 +57,7 @@ def _write82(fh, dset):
         n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
-        fh.write('%-80s\n' % dset['id'])
+        fh.write('%-80.80s\n' % dset['id'])
         sl = 0
         n8_blocks = n_nodes // 8
         rem_lines = n_nodes % 8
-- 
2.43.0


From 62c3e3548afea889e81d024062319c3d17a08739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 11/51] fix: write the file date and time given to prepare_151

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 3b42b6e..cfc608b 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written') or ds,
+                                        'time_file_written': dset.get('time_db_written') or ts})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80.80s\n' % dset['model_name'])
-- 
2.43.0


From c9534d14514deadde45ca8fd7055c55e5e27eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 12/51] fix: write record 1 of data-set 1858 in 6I12, as it is
 read

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index bad58cb..416dc19 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From 19e1f9eaf7f4f11b87238091f0eaacfe08a3916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 13/51] fix: write the beam record of every element read as a
 beam

Elements 21 to 24 were written without it and could not be read back.
---
 pyuff/datasets/dataset_2412.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..2fe7cad 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -44,6 +44,10 @@ Records 1 - 3 are repeated for each beam element in the model.
     else:
         print(out)   
 
+# Elements that are seen as rods and written and read as 3 lines
+_RODS = {11, 21, 22, 23, 24}
+
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
@@ -60,7 +64,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in _RODS:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
@@ -80,8 +84,6 @@ def _extract2412(block_data):
     dset = {'type': 2412}
     # Define dictionary of possible elements types for legacy interface
     elt_type_dict = {41: 'triangle', 44: 'quad'}
-    # Elements that are seen as rods and read as 3 lines
-    rods_dict = {11, 21, 22, 23, 24}
 
     # Read data
     try:
@@ -99,7 +101,7 @@ def _extract2412(block_data):
             dict_tmp['mat_table'] = int(line[3])
             dict_tmp['color'] = int(line[4])
             dict_tmp['num_nodes'] = int(line[5])
-            if dict_tmp['fe_descriptor'] in rods_dict:
+            if dict_tmp['fe_descriptor'] in _RODS:
                 # element is a rod and covers 3 lines
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
-- 
2.43.0


From e9d08e4faef36beb7929a5bfa42f44cfe02999b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 14/51] fix: elements with more than 8 nodes in data-set 2412
 (8I10 per line)

---
 pyuff/datasets/dataset_2412.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 2fe7cad..7eb2486 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -71,7 +71,9 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
+                for n, ii in enumerate(elem['nodes_nums']):
+                    if n > 0 and n % 8 == 0:
+                        fh.write('\n')
                     fh.write('%10i' % ii)
                 fh.write('\n')
         fh.write('%6i\n' % -1)
@@ -112,6 +114,10 @@ def _extract2412(block_data):
                 # element is no rod and covers 2 lines
                 dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
                 i += 2
+            # more than 8 nodes continue on the following lines
+            while len(split_data[i-1]) == 8 and len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes']:
+                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From f951c94c78570a2931b4583067ed8c73c33dd87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 15/51] fix: write data-set 2412 as given by prepare_2412

The documented layout (one list per field, alone or as 'quad' or 'triangle') was
silently written as an empty data-set.
---
 pyuff/datasets/dataset_2412.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 7eb2486..a22d633 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -48,9 +48,25 @@ Records 1 - 3 are repeated for each beam element in the model.
 _RODS = {11, 21, 22, 23, 24}
 
 
+def _elements(layout):
+    """Returns the elements given as one list per field, as prepare_2412 does."""
+    if not isinstance(layout, dict) or layout.get('element_nums') is None:
+        return []
+    elements = []
+    for i in range(len(layout['element_nums'])):
+        elem = {key: layout[key][i] for key in layout if key != 'type' and not isinstance(layout[key], (dict, type(None)))}
+        elem.setdefault('color', 0)
+        elem.setdefault('num_nodes', len(elem['nodes_nums']))
+        elements.append(elem)
+    return elements
+
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
+        if not any(type(el_type) is int for el_type in dset):
+            # the layout of prepare_2412, alone or as the 'triangle' or 'quad' item
+            dset = {0: [elem for layout in [dset] + list(dset.values()) for elem in _elements(layout)]}
         for el_type in dset:
             if type(el_type) is not int:
                 # Skip 'type', 'triangle' and 'quad' indices
-- 
2.43.0


From 8c265b7d35a9df1e7b7786d17563447ef26f28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 16/51] fix: write the real records of data-set 2414 in E13.5
 columns

A negative value moved the values after it out of their columns.
---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 44a35d3..8e64937 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From b4aad7c662344918fece399db1e7ec40ab6fc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 17/51] fix: close a data-set 2414 with location 5

The missing delimiter made the sets that follow unreadable.
---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 8e64937..586634c 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 2f180a71dfec2907b2e8b8299b28755f34b3a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 18/51] fix: read complex double-precision data of data-set
 2414

---
 pyuff/datasets/dataset_2414.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 586634c..78c6bbb 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -752,7 +752,7 @@ def _extract2414(block_data):
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
-            if dset['data_type'] == 5 :
+            if dset['data_type'] in (5, 6):  # complex, single or double precision
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-- 
2.43.0


From 92c56a6273e3c29e330b26cd6c899969ef8af1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 19/51] fix: more than 6 values for a node or element in
 data-set 2414 (6E13.5 per line)

---
 pyuff/datasets/dataset_2414.py | 52 +++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 78c6bbb..f214a92 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -541,6 +541,35 @@ Dataset class: Data at points
     else:
         print(out)   
 
+def _write_values(fh, values):
+    """Writes the values of a record 15, up to 6 on a line."""
+    for n, value in enumerate(values):
+        if n > 0 and n % 6 == 0:
+            fh.write('\n')
+        fh.write('%13.5e' % (value))
+    fh.write('\n')
+
+
+def _read_values(lines, n_values):
+    """Reads records 14 and 15 of all the nodes or elements; n_values gives the number of values following a record 14."""
+    record14 = []
+    record15 = []
+    i = 0
+    while i < len(lines):
+        record14.append(lines[i].split())
+        fields = lines[i + 1].split()
+        values = list(fields)
+        i += 2
+        # more than 6 values continue on the following lines (a record 14 has only integers)
+        while (len(fields) == 6 and len(values) < n_values(record14[-1])
+                and i < len(lines) and not lines[i].replace(' ', '').isdigit()):
+            fields = lines[i].split()
+            values.extend(fields)
+            i += 1
+        record15.append(np.array([float(elem) for elem in values], float))
+    return np.asarray(record14, 'U'), record15
+
+
 def _write2414(fh, dset):
     """
     DS2414_num is iterative number for each DS2414
@@ -670,20 +699,14 @@ def _write2414(fh, dset):
             if dset['dataset_location'] == 1:
                 for index in range(dset['node_nums'].shape[0]):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
-                    for field in dset['data_at_node'][index]:
-                        # number of values unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    _write_values(fh, dset['data_at_node'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 2:
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
-                        # number of values in record15 unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    _write_values(fh, dset['data_at_element'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 3:
@@ -691,10 +714,8 @@ def _write2414(fh, dset):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
-                        # each line is an np.ndarray with unknown number of elements, so loop
-                        for item in line:
-                            fh.write('%13.5e' % (item))
-                        fh.write('\n')
+                        # each line is an np.ndarray with unknown number of elements
+                        _write_values(fh, line)
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 5:
@@ -789,17 +810,16 @@ def _extract2414(block_data):
             split_data = split_data.splitlines()
             if dset['dataset_location'] == 1:
                 # Data at nodes
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
+                n_values = dset['number_of_data_values_for_the_data_component'] * (2 if dset['data_type'] in (5, 6) else 1)
                 # record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record14, record15 = _read_values(split_data, lambda record14: n_values)
                 dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['data_at_node'] = record15
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record14, record15 = _read_values(split_data, lambda record14: int(record14[1]))
                 dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
                 dset['data_at_element'] = record15
-- 
2.43.0


From 0d1bda37db613ad124b83cbd6dc3f3c72bf4dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 20/51] fix: write the groups of data-set 2429

Only a single group given by the data-set itself was written, so that neither
prepare_2429 nor what was read could be written; a last line with less than 4
entities was filled with the wrong ones.
---
 pyuff/datasets/dataset_2429.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index abddf8c..f3604e5 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -103,6 +103,17 @@ Records 1 thru n are repeated for each group in the model.
     else:
         print(out)   
 def _write2429(fh, dset):
+    try:
+        fh.write('%6i\n%6i\n' % (-1, 2429))
+        # a single group can also be given by the data-set itself
+        for group in dset.get('groups', [dset]):
+            _write_group(fh, group)
+        fh.write('%6i\n' % -1)
+    except:
+        raise Exception('Error writing data-set #2429')
+
+
+def _write_group(fh, dset):
     try:
         dict = {'active_constraint_set_no_for_group': 0,
                 'active_restraint_set_no_for_group': 0,
@@ -112,7 +123,6 @@ def _write2429(fh, dset):
                 'active_contact_set_no_for_group': 0 }
 
         dset = _opt_fields(dset, dict)
-        fh.write('%6i\n%6i\n' % (-1, 2429))
 
         # Record 1
         # Field 8 (last field) contains the number or entities in the group
@@ -135,15 +145,13 @@ def _write2429(fh, dset):
                                                                 dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
                                                                 dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
         # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
+        for i in range(len(dset['entity_type_code']) // 4 * 4, len(dset['entity_type_code'])):
             # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
+            fh.write('%10i%10i' % (dset['entity_type_code'][i], dset['entity_tag'][i]))
         # Write the missing line break, but only if a non full last line has been written
         if (len(dset['entity_type_code']) % 4 != 0):
             fh.write('\n')
 
-        fh.write('%6i\n' % -1)
-
     except:
         raise Exception('Error writing data-set #2429')
 
-- 
2.43.0


From 39de7350ee7072c6113bee26e37d0a037a256626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 21/51] fix: read a last group without entities in data-set
 2429

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index f3604e5..4354f41 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -164,7 +164,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 84747fc6c59b8c51eecc2f9196fff68bdd8694fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 22/51] fix: active temperature and contact sets in
 prepare_group

Both were given the number of the active dof set.
---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 4354f41..b7261b0 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -267,8 +267,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 373eb23..95dba50 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From d5b9fe0f83187279dec28b5c73a32e8d7891a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 23/51] fix: prepare_2467 checks the groups it is given

The leaf and component ids were left out of the call, which always failed.
---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 95dba50..67587d0 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From 25bf3eb541e7569663e0d5292930c024eac1435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 24/51] fix: no debug output when reading data-set 2467

A group name that the standard output can not encode made reading fail.
---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 67587d0..8421c8a 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From 71d0f42745b8da0053eae68a9cb77cf2fdc8c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 25/51] fix: default set numbers for the groups of data-set
 2467

The defaults were added to the data-set instead of its groups.
---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 8421c8a..2c03f77 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 58f3ee25ff43fafd7d02f84ba5ab09bf2150ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 26/51] fix: count the nodes of data-set 82

Only changes from node to node were counted: with a node repeated in succession the
header was wrong and the last nodes could be left out. Zeros that fill up
the last line of a file are no longer read as nodes.
---
 pyuff/datasets/dataset_82.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index a3165a8..4a54b3f 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -52,9 +52,7 @@ def _write82(fh, dset):
         # write strings to the file
         # removed jul 2017: unique_nodes = set(dset['nodes'])
         # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        n_nodes = len(dset['nodes'])
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80.80s\n' % dset['id'])
@@ -86,6 +84,9 @@ def _extract82(block_data):
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
         split_data = ''.join(split_data[4:])
         split_data = split_data.split()
+        # zeros that only fill up the last line do not belong to the trace line
+        while len(split_data) > dset['n_nodes'] and float(split_data[-1]) == 0:
+            split_data.pop()
         dset['nodes'] = np.asarray([float(str) for str in split_data])
     except:
         raise Exception('Error reading data-set #82')
-- 
2.43.0


From b09b4119b6d38b526d7bac3f0e492db6739cb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 27/51] fix: convert more than one data-set 2412 to 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From c40c4973b8a5b310ea268df3809f4cacd04d5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 28/51] fix: complex data with 6 values per node in data-set 55

Only r1 to r3 were written, under a header announcing 6 values, which
could not be read back.
---
 pyuff/datasets/dataset_55.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index d71fb0d..be44b88 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -440,12 +440,16 @@ def _write55(fh, dset):
                                 (dset['r1'][k], dset['r2'][k], dset['r3'][k], dset['r4'][k], dset['r5'][k],
                                 dset['r6'][k]))
         elif data_type == 5:
-            # Complex data; n_data_per_node is assumed being 3
+            # Complex data; 6 data per node take 2 lines
             for k in range(0, n):
                 fh.write('%10i\n' % dset['node_nums'][k])
                 fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
                             (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                             dset['r3'][k].real, dset['r3'][k].imag))
+                if n_data_per_node == 6:
+                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
+                                (dset['r4'][k].real, dset['r4'][k].imag, dset['r5'][k].real, dset['r5'][k].imag,
+                                dset['r6'][k].real, dset['r6'][k].imag))
         else:
             raise ValueError('Unsupported data type')
         fh.write('%6i\n' % -1)
@@ -502,7 +506,12 @@ def _extract55(block_data):
             dset.update(_parse_header_line(split_data[9], 1, [13, 13, 13, 13, 13, 13], [3, -1, -1, -1, -1, -1],
                                                 ['freq', '', '', '', '', '']))
             # Body
-        split_data = ''.join(split_data[10:])
+        split_data = split_data[10:]
+        if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
+            # the values of each node take 2 lines
+            split_data = [line for n in range(0, len(split_data) - 2, 3)
+                          for line in (split_data[n], split_data[n + 1][:78] + split_data[n + 2])]
+        split_data = ''.join(split_data)
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
         node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
@@ -528,7 +537,9 @@ def _extract55(block_data):
                 dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
                 dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
             else:
-                raise Exception('Cannot handle 6 points per node and complex data when reading data-set #55')
+                dset['node_nums'] = node_nums.copy()
+                for n in range(6):
+                    dset['r%i' % (n + 1)] = node_vals[2 * n::12].copy() + 1.j * node_vals[2 * n + 1::12].copy()
         else:
             raise Exception('Error reading data-set #55')
     except:
-- 
2.43.0


From a2d0171ffbca00247fb47c61fcd31ad052262eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 29/51] fix: read an ASCII 58 whose lines are blank-padded

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 87c7f3b..27b1094 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1103,12 +1103,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20) if line[20 * i:20 * (i + 1)].strip()])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line) // 33) if line[33 * i:33 * (i + 1)].strip() for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From 0fb249ff45d21286d3921a0d00aa9c98345db5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 30/51] fix: read a data-set 55 whose lines are blank-padded

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index be44b88..1b339a8 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -513,7 +513,7 @@ def _extract55(block_data):
                           for line in (split_data[n], split_data[n + 1][:78] + split_data[n + 2])]
         split_data = ''.join(split_data)
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) if str[i*13:(i+1)*13].strip()] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
-- 
2.43.0


From 94c66fb1af7763b1e716298b2ab3479e11509c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 31/51] fix: read a data-set 18 whose lines are blank-padded

---
 pyuff/datasets/dataset_18.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 6d23b73..4161f89 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,7 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
+        line_data = ''.join([s[:78] for s in split_data[4::4]])
         rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
@@ -105,7 +105,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
+        line_data = ''.join([s[:39] for s in split_data[5::4]])
         rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
-- 
2.43.0


From 866ea466699715cb099ac53f4dc750835d825cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 32/51] fix: a binary data-set cut short is not closed by its
 own samples

---
 pyuff/pyuff.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index d532623..dc8910b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -92,7 +92,14 @@ def _closes_at_line_end(data, tag):
     """
     if data[tag.end() - 1:tag.end()] == b' ':
         return False
+    return _ends_before_set(data, tag)
+
+
+def _ends_before_set(data, tag):
+    """Decides whether a delimiter is followed by the next data-set, or by nothing at all."""
     following = _END_OF_LINE.match(data, tag.end())
+    if not following:
+        return False
     if not data[following.end():following.end() + 80].strip():
         return not data[following.end():].strip()
     opening = _DELIMITER.match(data, following.end())
@@ -106,6 +113,7 @@ def _find_closing(data, ind):
     """Returns the match of the delimiter closing the data-set whose opening ends at ind, or None."""
     lines = data[ind:ind + 2000].splitlines()
     binary = len(lines) > 1 and lines[1][:7].strip().lower() == b'58b'
+    cut = False
     if binary:
         # the samples may contain anything, hence skip them if their length is known
         start = ind
@@ -113,14 +121,20 @@ def _find_closing(data, ind):
             start = data.find(b'\n', start) + 1
             if start == 0:
                 break
+        # whether the file ends before the header or the samples do
+        cut = start == 0
         n_bytes = lines[1][31:43].strip()
         if start > 0 and n_bytes.isdigit():
             tag = re.compile(rb'[\r\n]{0,2}(?=    -1)').match(data, start + int(n_bytes))
             tag = tag and _DELIMITER.match(data, tag.end())
             if tag:
                 return tag
+            cut = b'    -1'.startswith(data[start + int(n_bytes):].lstrip(b'\r\n'))
     for tag in _DELIMITER.finditer(data, ind):
-        if binary or _at_line_start(data, tag.start()) or _closes_at_line_end(data, tag):
+        if cut:
+            if _ends_before_set(data, tag):
+                return tag
+        elif binary or _at_line_start(data, tag.start()) or _closes_at_line_end(data, tag):
             return tag
 
 
-- 
2.43.0


From f69dff3aa228effa2befb290c7daf46f65392b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 33/51] fix: prepare_55 accepts text for modal_m

---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1b339a8..211a975 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -703,6 +703,8 @@ def prepare_55(
         raise TypeError('r6 must be integer')
     if np.array(freq).dtype != float and freq != None:
         raise TypeError('freq must be float')
+    if not np.issubdtype(np.array(modal_m).dtype, np.number) and modal_m != None:
+        raise TypeError('modal_m must be numeric')
     if type(modal_damp_vis) != float and modal_damp_vis != None:
         raise TypeError('modal_damp_vis must be float')
     if type(modal_damp_his) != float and modal_damp_his != None:
-- 
2.43.0


From 035a5503c92a2b3c83a1e800b342af387cd09609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 34/51] fix: prepare_58 accepts text for x

---
 pyuff/datasets/dataset_58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 27b1094..e31212e 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1426,6 +1426,8 @@ def prepare_58(
     if np.array(data).dtype != float and np.array(data).dtype != complex:
         if data != None:
             raise TypeError('data must be float')
+    if x is not None and not np.issubdtype(np.array(x).dtype, np.number):
+        raise TypeError('x must be numeric')
     
 
 
-- 
2.43.0


From 62d208421e82bf1959c92383871aa2e570ed4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 35/51] fix: prepare_2400 accepts a status_mask that does not
 hold integers

---
 pyuff/datasets/dataset_2400.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index b1f2812..621461e 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -172,6 +172,8 @@ def prepare_2400(
         raise TypeError('part_number must be string')
     if status_mask != None and (not hasattr(status_mask, '__len__') or len(status_mask) != 32):
         raise ValueError('status_mask must be a list of 32 integers')
+    if status_mask != None and np.array(status_mask).dtype != int:
+        raise TypeError('status_mask must be a list of 32 integers')
     if type(date) != str and date != None:
         raise TypeError('date must be string')
     if type(time) != str and time != None:
-- 
2.43.0


From bc99dd009468ec8b2c018ee08cd681a5e5138065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 36/51] fix: prepare_18 accepts values of the wrong type

---
 pyuff/datasets/dataset_18.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 4161f89..11d9d1a 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -163,6 +163,16 @@ def prepare_18(
     >>>     uffwrite._write_set(dataset, 'add')
     >>> dataset
     """
+    for name, values in (('cs_num', cs_num), ('cs_type', cs_type), ('ref_cs_num', ref_cs_num), ('color', color), ('method', method)):
+        # whole numbers, of any type (reading returns them as floats)
+        if values is not None and (np.array(values).dtype.kind not in 'iuf' or np.any(np.mod(values, 1) != 0)):
+            raise TypeError(name + ' must be integers')
+    if cs_name is not None and (np.array(cs_name).dtype.kind != 'U' and len(cs_name) > 0):
+        raise TypeError('cs_name must be strings')
+    for name, values in (('ref_o', ref_o), ('x_point', x_point), ('xz_point', xz_point)):
+        if values is not None and np.array(values).dtype.kind not in 'iuf':
+            raise TypeError(name + ' must be numeric')
+
     dataset = {
         'type': 18,
         'cs_num': cs_num,
-- 
2.43.0


From 708cf19c79b9e050ad8d6780b8cc568e7ed96be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 37/51] fix: an empty date or time given to prepare_151 is
 honoured on writing

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index cfc608b..7deae61 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': dset.get('date_db_written') or ds,
-                                        'time_file_written': dset.get('time_db_written') or ts})
+                                        'date_file_written': ds if dset.get('date_db_written') is None else dset['date_db_written'],
+                                        'time_file_written': ts if dset.get('time_db_written') is None else dset['time_db_written']})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80.80s\n' % dset['model_name'])
-- 
2.43.0


From de71518be3d8066a4da20231aa7afe17765bb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 38/51] fix: fix_58b loses a last set without final newline and
 damages samples and texts that look like delimiters

---
 pyuff/datasets/dataset_58.py | 47 +++++++++++++++---------------------
 pyuff/pyuff.py               | 39 +++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 42 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index e31212e..0e2f4cd 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -2,6 +2,7 @@ import numpy as np
 import struct
 import sys
 import os
+import re
 
 from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
 
@@ -1520,35 +1521,25 @@ def fix_58b(filename,fixed_filename=None):
         raise Exception(f'Cannot access the file {filename}: {e}')
     else:
         try:
-            lines = data.splitlines(keepends=True)
-
-            # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
-                if len(lines) >= 2:
-                    # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
-                    lines[-2] = prev_line
-                    lines.pop()  # Remove the last line
+            from ..pyuff import _DELIMITER, _find_blocks, _find_samples, _ends_before_set
+            # Work on the delimiters of the data-sets only: anything else that looks
+            # like a '    -1' line, e.g. within binary samples, is left as it is.
+            fixed = []
+            pos = 0
+            for start, end in _find_blocks(data):
+                tag = _DELIMITER.match(data, end + 1)
+                if not _ends_before_set(data, tag):
+                    continue
+                _, samples_end = _find_samples(data, start + 6) or (None, None)
+                if samples_end is not None and samples_end <= end + 1 and not data[samples_end:end + 1].strip(b'\r\n'):
+                    block = data[pos:samples_end]
                 else:
-                    pass
-
-            # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
-            i = 0
-            while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
-                    # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
-                    lines[i] = data_line
-                    del lines[i+1]  # Remove the now-empty line
-                    # Do not increment i to recheck the new line at position i
-                else:
-                    i += 1  # Move to the next line
-
-            # Reassemble the data
-            data = b''.join(lines)
-
+                    block = re.sub(rb'(\r\n|\r|\n)\Z', b'', data[pos:end + 1])
+                # Move '    -1' up to the end of the previous line
+                fixed += [block, b'    -1']
+                pos = tag.end()
+            fixed.append(data[pos:])
+            data = b''.join(fixed)
 
             # Write the fixed data back to the file
             if fixed_filename is None:
diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index dc8910b..2beb834 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -109,32 +109,43 @@ def _ends_before_set(data, tag):
     return bool(following and _ID_LINE.match(data[following.end():following.end() + 6]))
 
 
+def _find_samples(data, ind):
+    """
+    Returns the offsets of the start and end of the samples of the binary data-set
+    whose opening ends at ind, each None if unknown; None for other data-sets.
+    """
+    lines = data[ind:ind + 2000].splitlines()
+    if len(lines) < 2 or lines[1][:7].strip().lower() != b'58b':
+        return None
+    start = ind
+    for _ in range(13):
+        start = data.find(b'\n', start) + 1
+        if start == 0:
+            return None, None
+    n_bytes = lines[1][31:43].strip()
+    return start, start + int(n_bytes) if n_bytes.isdigit() else None
+
+
 def _find_closing(data, ind):
     """Returns the match of the delimiter closing the data-set whose opening ends at ind, or None."""
-    lines = data[ind:ind + 2000].splitlines()
-    binary = len(lines) > 1 and lines[1][:7].strip().lower() == b'58b'
+    samples = _find_samples(data, ind)
     cut = False
-    if binary:
+    if samples:
         # the samples may contain anything, hence skip them if their length is known
-        start = ind
-        for _ in range(13):
-            start = data.find(b'\n', start) + 1
-            if start == 0:
-                break
+        start, end = samples
         # whether the file ends before the header or the samples do
-        cut = start == 0
-        n_bytes = lines[1][31:43].strip()
-        if start > 0 and n_bytes.isdigit():
-            tag = re.compile(rb'[\r\n]{0,2}(?=    -1)').match(data, start + int(n_bytes))
+        cut = start is None
+        if end is not None:
+            tag = re.compile(rb'[\r\n]{0,2}(?=    -1)').match(data, end)
             tag = tag and _DELIMITER.match(data, tag.end())
             if tag:
                 return tag
-            cut = b'    -1'.startswith(data[start + int(n_bytes):].lstrip(b'\r\n'))
+            cut = b'    -1'.startswith(data[end:].lstrip(b'\r\n'))
     for tag in _DELIMITER.finditer(data, ind):
         if cut:
             if _ends_before_set(data, tag):
                 return tag
-        elif binary or _at_line_start(data, tag.start()) or _closes_at_line_end(data, tag):
+        elif samples or _at_line_start(data, tag.start()) or _closes_at_line_end(data, tag):
             return tag
 
 
-- 
2.43.0


From 2fda214bede796f4809be0d4b61dc216c01e979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 39/51] fix: convert_dataset_2412_to_82 fails on a set with an
 empty list of quads

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..0cc50c7 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -132,7 +132,7 @@ def convert_dataset_2412_to_82(datasets):
 
     datasets_82 = []
     for i in range(0, len(datasets)):
-        if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+        if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()) and len(datasets[i]["quad"]["nodes_nums"]) > 0:
             nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
-- 
2.43.0


From 851c845cca6ebcf214697fc40ee1a3d19ae80629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 40/51] fix: reading groups with a negative number of entities
 never ended

---
 pyuff/datasets/dataset_2429.py | 2 ++
 pyuff/datasets/dataset_2467.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index b7261b0..d377e8a 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -172,6 +172,8 @@ def _extract2429(block_data):
             group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
             # Record 1 field 8 (last field) contains the number or entities in the group
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
+            if group['number_of_entities_in_group'] < 0:
+                raise Exception('Negative number of entities in data-set #2429')
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
             values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 2c03f77..9828fb7 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -131,6 +131,8 @@ def _extract2467(block_data):
                                 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
                                 'active_contact_set_no_for_group', 'number_of_entities_in_group']))
         group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
+        if group['number_of_entities_in_group'] < 0:
+            raise Exception('Negative number of entities in data-set #2467')
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
         values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
-- 
2.43.0


From ff4a53712e62ebe073b5ed7975fa79e7161a8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 41/51] fix: a binary data-set with missing samples takes the
 opening of the next one for its end

---
 pyuff/pyuff.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 2beb834..6577c72 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -126,6 +126,16 @@ def _find_samples(data, ind):
     return start, start + int(n_bytes) if n_bytes.isdigit() else None
 
 
+def _opens_next_set(data, tag):
+    """
+    Decides whether a delimiter opens the next data-set, i.e. follows a closing
+    delimiter and is followed by a data-set number (there are samples missing).
+    """
+    following = _END_OF_LINE.match(data, tag.end())
+    return bool(re.search(rb'    -1 *(\r\n|\r|\n)\Z', data[max(0, tag.start() - 82):tag.start()])
+                and following and _ID_LINE.match(data[following.end():following.end() + 6]))
+
+
 def _find_closing(data, ind):
     """Returns the match of the delimiter closing the data-set whose opening ends at ind, or None."""
     samples = _find_samples(data, ind)
@@ -138,7 +148,7 @@ def _find_closing(data, ind):
         if end is not None:
             tag = re.compile(rb'[\r\n]{0,2}(?=    -1)').match(data, end)
             tag = tag and _DELIMITER.match(data, tag.end())
-            if tag:
+            if tag and not _opens_next_set(data, tag):
                 return tag
             cut = b'    -1'.startswith(data[end:].lstrip(b'\r\n'))
     for tag in _DELIMITER.finditer(data, ind):
-- 
2.43.0


From 513ba7e50381033a114d1f74943c4b085761249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 42/51] fix: a file whose position cannot be told is left open
 by a write

---
 pyuff/pyuff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 6577c72..588ce8b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -570,9 +570,10 @@ class UFF:
                 fh = open(self._filename, 'ab')
         except:
             raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        size = fh.tell()
+        size = None
         try:
             with fh:
+                size = fh.tell()
                 if block and size > 0 and self._last_byte() not in b'\r\n':
                     # the delimiter must start on a line of its own
                     fh.write(b'\n')
@@ -580,7 +581,8 @@ class UFF:
         except:
             # do not leave a part of the data-set at the end of the file
             self._refreshed = False
-            os.truncate(self._filename, size)
+            if size is not None:
+                os.truncate(self._filename, size)
             raise
 
     def _last_byte(self):
-- 
2.43.0


From ba146d1e95916762d413772b592345a4418d9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 43/51] fix: write a 2414 whose numbers are a list, as
 prepare_2414 allows

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index f214a92..07c446a 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -637,7 +637,7 @@ def _write2414(fh, dset):
                                             dset['imaginary_part_of_modal_A_or_modal_mass'],
                                             dset['real_part_of_modal_B_or_modal_mass'], 
                                             dset['imaginary_part_of_modal_B_or_modal_mass']))                            
-            for index in range(dset['node_nums'].shape[0]):
+            for index in range(len(dset['node_nums'])):
                 fh.write('%10i\n' % (int(dset['node_nums'][index])))
                 if dset['number_of_data_values_for_the_data_component'] == 3 : 
                     fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
@@ -697,20 +697,20 @@ def _write2414(fh, dset):
             
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
             if dset['dataset_location'] == 1:
-                for index in range(dset['node_nums'].shape[0]):
+                for index in range(len(dset['node_nums'])):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
                     _write_values(fh, dset['data_at_node'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 2:
-                for index in range(dset['element_nums'].shape[0]):
+                for index in range(len(dset['element_nums'])):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
                     _write_values(fh, dset['data_at_element'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 3:
-                for index in range(dset['element_nums'].shape[0]):
+                for index in range(len(dset['element_nums'])):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
-- 
2.43.0


From 48403a469e06ba5b49cde7bd201873ce026acd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 44/51] fix: prepare_18 accepts a list of names with a number
 among them

---
 pyuff/datasets/dataset_18.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 11d9d1a..349678f 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -167,7 +167,7 @@ def prepare_18(
         # whole numbers, of any type (reading returns them as floats)
         if values is not None and (np.array(values).dtype.kind not in 'iuf' or np.any(np.mod(values, 1) != 0)):
             raise TypeError(name + ' must be integers')
-    if cs_name is not None and (np.array(cs_name).dtype.kind != 'U' and len(cs_name) > 0):
+    if cs_name is not None and not all(isinstance(name, str) for name in cs_name):
         raise TypeError('cs_name must be strings')
     for name, values in (('ref_o', ref_o), ('x_point', x_point), ('xz_point', xz_point)):
         if values is not None and np.array(values).dtype.kind not in 'iuf':
-- 
2.43.0


From 175e74ab9fc1149ebda25a98e918a397a3603de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 45/51] fix: the increment of an abscissa of small integers
 does not overflow

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 0e2f4cd..5b7ec07 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -906,7 +906,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
         if num_pts > 1:
-            dx = dset['x'][1] - dset['x'][0]
+            dx = float(dset['x'][1]) - float(dset['x'][0])  # small integers would overflow
         else:
             dx = dset.get('abscissa_inc', 0.)  # can not be determined from a single point
         fh.write('%6i\n%6i' % (-1, 58))
-- 
2.43.0


From 40d628ec9b80da098c6c891276d99a423533d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 46/51] fix: complex samples of 58 are read with their negative
 zeros and infinities

---
 pyuff/datasets/dataset_58.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 5b7ec07..0d870fb 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1015,6 +1015,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         raise Exception('Error writing data-set #58')
 
 
+def _complex(re, im):
+    """Complex values of these parts. (re + 1.j * im is not, where im is negative zero, infinite or NaN.)"""
+    values = np.empty(len(re), dtype=complex)
+    values.real = re
+    values.imag = im
+    return values
+
+
 def _extract58(block_data, header_only=False):
     """
     Extract function at nodal DOF - data-set 58. 
@@ -1136,14 +1144,14 @@ def _extract58(block_data, header_only=False):
                 if (dset['abscissa_spacing'] == 0):
                     # Uneven abscissa
                     dset['x'] = values[:-2:3].copy()
-                    dset['data'] = values[1:-1:3] + 1.j * values[2::3]
+                    dset['data'] = _complex(values[1:-1:3], values[2::3])
                 else:
                     # Even abscissa
                     n_val = len(values) / 2
                     min_val = dset['abscissa_min']
                     d = dset['abscissa_inc']
                     dset['x'] = min_val + np.arange(n_val) * d
-                    dset['data'] = values[0:-1:2] + 1.j * values[1::2]
+                    dset['data'] = _complex(values[0:-1:2], values[1::2])
             del values
     except:
         raise Exception('Error reading data-set #58b')
-- 
2.43.0


From 416af2305122768d6c8c9db7a9bcaf179879988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 47/51] fix: values that fill their columns, and therefore
 touch, were read as one

A line like '21474836472147483647' (two I10 fields) or one with E13.5 reals
such as -1.00000e-100 follows the layout, and is what the writers write.
---
 pyuff/datasets/dataset_15.py   |  5 ++---
 pyuff/datasets/dataset_18.py   |  4 ++--
 pyuff/datasets/dataset_2411.py |  7 +++----
 pyuff/datasets/dataset_2412.py |  4 ++--
 pyuff/datasets/dataset_2414.py | 22 +++++++++++-----------
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  4 ++--
 pyuff/datasets/dataset_2467.py |  4 ++--
 pyuff/datasets/dataset_82.py   |  5 ++---
 pyuff/tools.py                 | 19 +++++++++++++++++++
 10 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 1f50908..df086d9 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -1,7 +1,7 @@
 from os import write
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _write_record, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _write_record, check_dict_for_none
 
 def get_structure_15(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -62,8 +62,7 @@ def _extract15(block_data):
     try:
         # Body
         split_data = block_data.splitlines()
-        split_data = ''.join(split_data[2:]).split()
-        split_data = [float(_) for _ in split_data]
+        split_data = [float(_) for line in split_data[2:] for _ in _split_fields(line)]
 
         dset['node_nums'] = split_data[::7]
         dset['def_cs'] = split_data[1::7]
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 349678f..a50679f 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 
 def get_structure_18(raw=False):
@@ -80,7 +80,7 @@ def _extract18(block_data):
         split_data = block_data.splitlines()
 
         # -- Get Record 1
-        rec_1 = np.array(list(map(float, ''.join(split_data[2::4]).split())))
+        rec_1 = np.array([float(_) for line in split_data[2::4] for _ in _split_fields(line)])
 
         dset['cs_num'] = rec_1[::5]
         dset['cs_type'] = rec_1[1::5]
diff --git a/pyuff/datasets/dataset_2411.py b/pyuff/datasets/dataset_2411.py
index 2728a11..5d40f82 100644
--- a/pyuff/datasets/dataset_2411.py
+++ b/pyuff/datasets/dataset_2411.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2411(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -53,9 +53,8 @@ def _extract2411(block_data):
     dset = {'type': 2411}
     try:
         # Body
-        split_data = block_data.splitlines(True)  # Keep the line breaks!
-        split_data = ''.join(split_data[2:])  # ..as they are again needed
-        split_data = split_data.split()
+        split_data = block_data.splitlines()
+        split_data = [_ for line in split_data[2:] for _ in _split_fields(line)]
         # replace to support D or d notation as an exponential notation (typically form Unigraphics IDEAS)
         values = np.asarray([float(str.replace("D", "E").replace("d", "E")) for str in split_data], 'd')
         dset['node_nums'] = values[::7].copy()
diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index a22d633..88e85a4 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -1,7 +1,7 @@
 import numpy as np
 import itertools
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2412(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -106,7 +106,7 @@ def _extract2412(block_data):
     # Read data
     try:
         split_data = block_data.splitlines()
-        split_data = [a.split() for a in split_data][2:]
+        split_data = [_split_fields(a) for a in split_data][2:]
 
         # Extract Records
         i = 0
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 07c446a..b14f474 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -556,14 +556,14 @@ def _read_values(lines, n_values):
     record15 = []
     i = 0
     while i < len(lines):
-        record14.append(lines[i].split())
-        fields = lines[i + 1].split()
+        record14.append(_split_fields(lines[i]))
+        fields = _split_fields(lines[i + 1])
         values = list(fields)
         i += 2
         # more than 6 values continue on the following lines (a record 14 has only integers)
         while (len(fields) == 6 and len(values) < n_values(record14[-1])
                 and i < len(lines) and not lines[i].replace(' ', '').isdigit()):
-            fields = lines[i].split()
+            fields = _split_fields(lines[i])
             values.extend(fields)
             i += 1
         record15.append(np.array([float(elem) for elem in values], float))
@@ -768,8 +768,7 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
-            split_data = ''.join(block_data.splitlines(True)[15:])
-            split_data = split_data.split()
+            split_data = [_ for line in block_data.splitlines()[15:] for _ in _split_fields(line)]
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
@@ -836,12 +835,13 @@ def _extract2414(block_data):
                 dset['data_at_nodes_on_element'] = []
                 lineIndex = 0
                 while lineIndex < len(split_data):
-                    dset['element_nums'].append(int(split_data[lineIndex].split()[0]))
-                    iEXP = int(split_data[lineIndex].split()[1])
+                    record14 = _split_fields(split_data[lineIndex])
+                    dset['element_nums'].append(int(record14[0]))
+                    iEXP = int(record14[1])
                     dset['IEXP'].append(iEXP)
-                    numberOfNodes = int(split_data[lineIndex].split()[2])
+                    numberOfNodes = int(record14[2])
                     dset['number_of_nodes'].append(numberOfNodes)
-                    numberOfValuesPerNode = int(split_data[lineIndex].split()[3])
+                    numberOfValuesPerNode = int(record14[3])
                     dset['number_of_values_per_node'].append(numberOfValuesPerNode)
                     # if IEXP = 2, only one line for all nodes. Thus floor division + 1
                     numberOfLinesInRecord15 = 0
@@ -850,7 +850,7 @@ def _extract2414(block_data):
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
                     # a list of numpy array, since the number of lines is not fixed.
-                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
+                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in _split_fields(item)], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
                     lineIndex = lineIndex + 1 + numberOfLinesInRecord15
 
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index e6ffa7e..62f167a 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2420(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -88,7 +88,7 @@ def _extract2420(block_data):
     dset['Part_Name'] = split_data[3].rstrip()
 
     # -- Get Record 3
-    rec_3 = list(map(int, ''.join(split_data[4::6]).split()))
+    rec_3 = [int(_) for line in split_data[4::6] for _ in _split_fields(line)]
     dset['CS_sys_labels'] = rec_3[::3]
     dset['CS_types'] = rec_3[1::3]
     dset['CS_colors'] = rec_3[2::3]
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index d377e8a..8159513 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2429(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -176,7 +176,7 @@ def _extract2429(block_data):
                 raise Exception('Negative number of entities in data-set #2429')
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
-            values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+            values = [[int(elem) for elem in _split_fields(line)] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
             # flatten the list and put in ndarray
             values = np.array([item for sublist in values for item in sublist], dtype=int)
             group['entity_type_code'] = np.array(values[::2].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 9828fb7..b6e43fc 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_2467(raw=False):
     """(source: https://github.com/victorsndvg/FEconv/blob/master/source/unv/module_dataset_2467.f90)"""
@@ -135,7 +135,7 @@ def _extract2467(block_data):
             raise Exception('Negative number of entities in data-set #2467')
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
-        values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+        values = [[int(elem) for elem in _split_fields(line)] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
         # flatten the list and put in ndarray
         values = np.array([item for sublist in values for item in sublist], dtype=int)
         group['entity_type_code'] = np.array(values[::4].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4a54b3f..b598e76 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, check_dict_for_none
 
 def get_structure_82(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -82,8 +82,7 @@ def _extract82(block_data):
         dset.update(
             _parse_header_line(split_data[2], 3, [10, 10, 10], [2, 2, 2], ['trace_num', 'n_nodes', 'color']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
-        split_data = ''.join(split_data[4:])
-        split_data = split_data.split()
+        split_data = [_ for line in split_data[4:] for _ in _split_fields(line)]
         # zeros that only fill up the last line do not belong to the trace line
         while len(split_data) > dset['n_nodes'] and float(split_data[-1]) == 0:
             split_data.pop()
diff --git a/pyuff/tools.py b/pyuff/tools.py
index 0cc50c7..29eb912 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -1,3 +1,5 @@
+import re
+
 import pyuff
 import numpy as np
 
@@ -83,6 +85,23 @@ def _parse_header_line(line, min_values, widths, types, names):
                 fields_out.update({key: 0.0})
     return fields_out
 
+_TOUCHING_REALS = re.compile(r'(?<=[0-9])(?=[+-][0-9]*\.)')
+_TOUCHING_INTEGERS = re.compile(r'(?<!\S)[+-]?[0-9][0-9+-]{10,}(?!\S)')
+
+
+def _split_fields(line):
+    """
+    Splits a line into its fields, including those that touch as they fill their columns:
+    a real number ends where the sign of the next one is, integers have 10 columns each.
+    """
+    def split_integers(match):
+        text = match.group()
+        first = 10 - match.start() % 10
+        return ' '.join([text[:first]] + [text[ii:ii + 10] for ii in range(first, len(text), 10)])
+
+    return _TOUCHING_INTEGERS.sub(split_integers, _TOUCHING_REALS.sub(' ', line)).split()
+
+
 def _write_record(fh, values, formats, multiline=False, fstring=True):
     """Write a record to the open file using the specified formats.
 
-- 
2.43.0


From 6018d4e72aade17456d24aaba8e0a01f94fa9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 48/51] fix: a 2414 without nodes or elements, as it is stored,
 could not be read

---
 pyuff/datasets/dataset_2414.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index b14f474..d6db4e2 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -567,7 +567,7 @@ def _read_values(lines, n_values):
             values.extend(fields)
             i += 1
         record15.append(np.array([float(elem) for elem in values], float))
-    return np.asarray(record14, 'U'), record15
+    return np.asarray(record14 or np.empty((0, 2)), 'U'), record15
 
 
 def _write2414(fh, dset):
-- 
2.43.0


From 8decec37bbb9bafbc67f978cc320276b1d73b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 49/51] fix: an interrupted refresh was swallowed and left sets
 without a type

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 588ce8b..f91c572 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -319,7 +319,7 @@ class UFF:
                         self._set_types[ii] = int(block_data[1][0:6])
                         if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
-                    except:
+                    except (ValueError, IndexError):
                         # Some non-valid blocks found; ignore the exception
                         pass
             except:
-- 
2.43.0


From cf4462013e2bec97f36e74a86732d9287e05e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 50/51] fix: imaginary parts of 55 were lost when only the
 first component was real

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 211a975..2441d9a 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -395,7 +395,7 @@ def _write55(fh, dset):
             n_data_per_node = 6
         else:
             n_data_per_node = 3
-        if np.iscomplexobj(dset['r1']):
+        if any(np.iscomplexobj(dset['r%i' % k]) for k in range(1, n_data_per_node + 1)):
             data_type = 5
         else:
             data_type = 2
-- 
2.43.0


From d3758e46b0b638c3ae314394bee6303eb448f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 51/51] fix: a 2414 with more than three components was stored
 without its values

---
 pyuff/datasets/dataset_2414.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d6db4e2..48e61db 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -657,6 +657,8 @@ def _write2414(fh, dset):
                     fh.write('%13.5e%13.5e\n' % (
                                                 np.real(dset['x'][index]),
                                                 np.imag(dset['x'][index]),))
+                else:
+                    raise ValueError('Unsupported number of data values')
                 
             fh.write('%6i\n' % (-1))
         # Dictionairy keys have a general name.
-- 
2.43.0

