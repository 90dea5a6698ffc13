From 1ab67c48a713382f51c880d99ad66d4f8996af69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:06:57 +0000
Subject: [PATCH 01/31] fix: reading zero bytes is not an end of file

A record with an empty payload made read_record() raise Eof.
---
 src/hwp5/dataio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..4016157 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,7 +54,7 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize == 0 and size != 0:
         try:
             pos = f.tell()
         except IOError:
-- 
2.43.0


From 4d717a666e25926131b2a3c8eaeab700e8a95ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 02/31] fix: GeneratorReader.read(size) never returns more than
 size

Once the generator was exhausted the whole buffer was returned whatever
size was, and read(-1) dropped the last byte.
---
 src/hwp5/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..387da09 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -163,7 +163,7 @@ class GeneratorReader(object):
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
@@ -175,7 +175,7 @@ class GeneratorReader(object):
                 d, self.buffer = self.buffer[:size], self.buffer[size:]
                 return d
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -199,7 +199,7 @@ class GeneratorTextReader(object):
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
@@ -212,8 +212,7 @@ class GeneratorTextReader(object):
                 d, self.buffer = self.buffer[:size], self.buffer[size:]
                 return d
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From bf59b9a043a5bfb16bf9f932db8f9d9e6d19d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 03/31] fix: generate valid JSON for an empty array

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 387da09..e33014b 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From f485673bdbffe2815ee27f8ddbc1431b88cc3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 04/31] fix: convert FILETIME without losing precision

The float division rounded timestamps to a wrong microsecond.
---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..0ad7980 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -97,7 +97,7 @@ class FILETIME(object):
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From 81f050167908f5aa5603f7052d797370473e1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 05/31] fix: PropertySetHeader.bytesize is a number, not a
 tuple

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 0ad7980..9ee35f5 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -412,7 +412,7 @@ class PropertySet(object):
 class PropertySetHeader(Struct):
 
     def __init__(self, bytesize, propDescList):
-        self.bytesize = bytesize,
+        self.bytesize = bytesize
         self.propDescList = propDescList
 
     @classmethod
-- 
2.43.0


From a14a0816ef7a7c252a1990a78097763c3c88e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 06/31] fix: strip the zlib header again after
 IncrementalEncoder.reset()

---
 src/hwp5/zlib_raw_codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..76fdd0e 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -64,6 +64,7 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
 
     def reset(self):
         self.compressobj = zlib.compressobj()
+        self.initial = True
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From 3caac244c983de414e193ceb821cf28db771a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 07/31] fix: do not cut the last filename from stdin without a
 newline

---
 src/hwp5/proc/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..5b08dcb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -168,7 +168,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\n'), sys.stdin)
 
 
 def conditions_from_args(args):
-- 
2.43.0


From 5f80e08b3f1a584eabe8e0ad033e9bdd8d0b1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 08/31] fix: plat.gir_gsf: no xrange in Python 3

---
 src/hwp5/plat/gir_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..857f71f 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
-- 
2.43.0


From b9f8a95ff31b438e875a4845b38ea81ca37dc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 09/31] fix: table rows without cells shifted the following
 rows

A row in which no cell begins (all of it covered by row spans) was
queued as two cells, so that later cells went into wrong rows.
---
 src/hwp5/xmlmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..381ff06 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -470,7 +470,7 @@ def rstbody_tablebody(event, stack, item, attributes, context):
         for cols in attributes.pop('rowcols'):
             if cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
+            elif cols > 1:
                 rowcols.append(ROW_OPEN)
                 for i in range(0, cols - 2):
                     rowcols.append(0)
-- 
2.43.0


From e51aa260a3e3ad2000430f764916b6d2900d16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 10/31] fix: unpack() never writes out of the output directory

Names of storage items were joined to the output path as they are, so that
'..' or names with path separators escaped from it.
---
 src/hwp5/storage/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..c24a5d0 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -121,6 +121,19 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def unpacked_name(name):
+    ''' a filename in a single directory for the specified storage item
+
+        Item names come from (possibly hostile) files: they should not be able
+        to designate something out of the directory.
+    '''
+    for c in '\x05', '\x00', '/', '\\', ':':
+        name = name.replace(c, '_%02x' % ord(c))
+    if name in ('', '.', '..'):
+        name = '_' + name
+    return name
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -128,7 +141,7 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, unpacked_name(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +150,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From 17ba09ee6364657c1f3112457a754b3b64ed9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:03 +0000
Subject: [PATCH 11/31] fix: read property sets that have no dictionary

---
 src/hwp5/msoleprops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 9ee35f5..5ed8918 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -594,7 +594,9 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                displayName = None
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From bced19d3e3ff79ecdb85f3dd0350ad27f9c05ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 12/31] fix: hwp5proc xml --format=flat in Python 3

unicode is not defined there, and the XML declaration was written as a
str into a binary output.
---
 src/hwp5/xmldump_flat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..88dab23 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
-- 
2.43.0


From 18f1d9cc8bf7fb7be3774e7bbdbe019b3a3c36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 13/31] fix: flat XML of enums with undefined values

---
 src/hwp5/xmldump_flat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 88dab23..5753026 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -204,9 +204,10 @@ def xmlevents_from_modelevents(model_events):  # noqa
 
                         if isinstance(bitfield_type, EnumType):
                             atrs = {
-                                'type': bitfield_type.__name__,
-                                'value': value.name
+                                'type': bitfield_type.__name__
                             }
+                            if value.name is not None:
+                                atrs['value'] = value.name
                             yield STARTEVENT, ('enum', atrs)
                             yield ENDEVENT, 'enum'
 
-- 
2.43.0


From 980f5441a4d9055225e453d80bb8c9a35c0d9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 14/31] fix: drop all the characters which are not allowed in
 XML

Only NUL was dropped: other control characters in attribute values made
the output XML ill-formed.
---
 src/hwp5/xmlformat.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..01d734a 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -238,6 +239,17 @@ def element(context, ma):
     yield ENDEVENT, model.__name__
 
 
+# http://www.w3.org/TR/xml/#NT-Char
+NONXML_CHARS = '\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff'
+if sys.maxunicode > 0xffff:
+    NONXML_CHARS += '\ud800-\udfff'
+NONXML_CHARS = re.compile('[' + NONXML_CHARS + ']')
+
+
+def drop_nonxml_chars(text):
+    return NONXML_CHARS.sub('', text)
+
+
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
     for textchunk in xmlevents_to_textchunks(xmlevents):
         yield textchunk.encode(encoding)
@@ -256,12 +268,12 @@ def xmlevents_to_textchunks(xmlevents):
                 yield n
                 yield '='
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
+                v = drop_nonxml_chars(v)
                 yield v
             yield '>'
         elif event is Text:
             text = escape(item)
-            text = text.replace('\x00', '')
+            text = drop_nonxml_chars(text)
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From ee6aa77aac02e6a5d3f9174185943783de40ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 15/31] fix: split text at UTF-16 positions, not at code points

Positions of char shapes and line segments count UTF-16 code units: texts
with characters out of the BMP were split at wrong places.
---
 src/hwp5/xmlmodel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 381ff06..562db82 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -100,6 +100,15 @@ def make_ranged_shapes(shapes):
     yield (item[0], 0x7fffffff), item[1]
 
 
+def split_at(chunk, pos):
+    ''' split a text chunk at the `pos'th UTF-16 code unit '''
+    if isinstance(chunk, basestring):
+        units = chunk.encode('utf-16le', 'surrogatepass')
+        return (units[:pos * 2].decode('utf-16le', 'surrogatepass'),
+                units[pos * 2:].decode('utf-16le', 'surrogatepass'))
+    return chunk[:pos], chunk[pos:]
+
+
 def split_and_shape(chunks, ranged_shapes):
     try:
         (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
@@ -125,10 +134,9 @@ def split_and_shape(chunks, ranged_shapes):
             #         vvvv
             #         ..----
             if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
+                head, tail = split_at(chunk, shape_end - chunk_start)
+                prev = ((chunk_start, shape_end), head)
+                nexT = ((shape_end, chunk_end), tail)
                 (chunk_start, chunk_end), chunk = prev
             else:
                 nexT = None
-- 
2.43.0


From f9a3040ceda95ed08d0778174ee394dbbc315ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 16/31] fix: parse paragraph texts with reserved control
 characters 25-29

---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From 31a489501758f204b9c950cd66f6a377238a4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 17/31] fix: hwp5proc records reads the binary standard input

sys.stdin is a text stream in Python 3, so parsing the record headers
failed with a type error.
---
 src/hwp5/proc/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..4124c3d 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -47,7 +47,11 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        if PY2:
+            stdin_binary = sys.stdin
+        else:
+            stdin_binary = sys.stdin.buffer
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From 5802a9e1e0533b0aaa096b16416793bcabb335d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:54 +0000
Subject: [PATCH 18/31] fix: only canonical Section<n> names are sections

---
 src/hwp5/filestructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..a21b8ff 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -355,7 +355,9 @@ class Sections(ItemConversionStorage):
                     except:
                         pass
                     else:
-                        yield idx
+                        # 'Section01' is not what section(1) gives
+                        if name == 'Section%d' % idx:
+                            yield idx
         indexes = list(gen())
         indexes.sort()
         return indexes
-- 
2.43.0


From 851321b3dbe5ed88ffea5eb4db5e558aff4bb584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:18 +0000
Subject: [PATCH 19/31] fix: XML output with carriage returns and in other
 encodings

Carriage returns in text were lost in parsing, xml_encoding='utf-16' wrote a
BOM in every chunk, and characters which are not in the encoding failed.
---
 src/hwp5/xmlformat.py | 11 ++++++++---
 src/hwp5/xmlmodel.py  | 15 +++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 01d734a..3ada829 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
+import codecs
 import logging
 import re
 import sys
@@ -251,8 +252,12 @@ def drop_nonxml_chars(text):
 
 
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
-    for textchunk in xmlevents_to_textchunks(xmlevents):
-        yield textchunk.encode(encoding)
+    return encode_textchunks(xmlevents_to_textchunks(xmlevents), encoding)
+
+
+def encode_textchunks(textchunks, encoding):
+    # one encoder for all the chunks: there should be only one BOM, if any
+    return codecs.iterencode(textchunks, encoding, 'xmlcharrefreplace')
 
 
 def xmlevents_to_textchunks(xmlevents):
@@ -272,7 +277,7 @@ def xmlevents_to_textchunks(xmlevents):
                 yield v
             yield '>'
         elif event is Text:
-            text = escape(item)
+            text = escape(item, {'\r': '&#13;'})
             text = drop_nonxml_chars(text)
             yield text
         elif event is ENDEVENT:
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 562db82..c556e79 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -55,8 +55,9 @@ from .treeop import prefix_event
 from .treeop import build_subtree
 from .treeop import tree_events
 from .treeop import tree_events_multi
+from .xmlformat import encode_textchunks
 from .xmlformat import startelement
-from .xmlformat import xmlevents_to_bytechunks
+from .xmlformat import xmlevents_to_textchunks
 
 
 PY3 = sys.version_info.major == 3
@@ -595,14 +596,12 @@ class XmlEvents(object):
 
     def bytechunks(self, xml_declaration=True, **kwargs):
         encoding = kwargs.get('xml_encoding', 'utf-8')
+        textchunks = xmlevents_to_textchunks(self)
         if xml_declaration:
-            yield '<?xml version="1.0" encoding="{}"?>\n'.format(
-                encoding
-            ).encode(
-                encoding
-            )
-        bytechunks = xmlevents_to_bytechunks(self, encoding)
-        for chunk in bytechunks:
+            textchunks = chain([
+                '<?xml version="1.0" encoding="{}"?>\n'.format(encoding)
+            ], textchunks)
+        for chunk in encode_textchunks(textchunks, encoding):
             yield chunk
 
     def dump(self, outfile, **kwargs):
-- 
2.43.0


From bcf094da40823d6983989b338c5aef4a77a726e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:34 +0000
Subject: [PATCH 20/31] fix: StreamReader.read() of zlib_raw_codec ended before
 the end of the stream

---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 76fdd0e..ec8c5a9 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -128,7 +128,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From 30cb30c3306573f1b42b86452d88c5d303ae3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 21/31] fix: text form of the summary information fails once a
 property was read

cached_property stores the value under the name of its getter, so that
getPropertySetStream is not callable any more after the first access.
---
 src/hwp5/filestructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index a21b8ff..a851385 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -514,7 +514,7 @@ class HwpSummaryInfo(VersionSensitiveItem):
     @property
     def plaintext_lines(self):
         from .msoleprops import PropertySetStreamTextFormatter
-        stream = self.getPropertySetStream()
+        stream = self.propertySetStream
         formatter = PropertySetStreamTextFormatter()
         return formatter.formatTextLines(stream)
 
-- 
2.43.0


From db9733ca378e6a68185b8db8d6ab8bdd4bb7585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 22/31] fix: strings and byte blocks cut short by the end of
 data are parse errors

BSTR and types of a fixed size (HexBytes) silently took what was left.
---
 src/hwp5/bintype.py | 3 +++
 src/hwp5/dataio.py  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..6625776 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -28,6 +28,7 @@ import sys
 from .dataio import BSTR
 from .dataio import FixedArrayType
 from .dataio import FlagsType
+from .dataio import OutOfData
 from .dataio import ParseError
 from .dataio import SelectiveType
 from .dataio import StructType
@@ -399,6 +400,8 @@ def resolve_value_from_stream(item, stream):
         return ParaTextChunks.read(stream)
     elif hasattr(item_type, 'fixed_size'):
         bytes = readn(stream, item_type.fixed_size)
+        if len(bytes) < item_type.fixed_size:
+            raise OutOfData(item_type.fixed_size, len(bytes))
         if hasattr(item_type, 'decode'):
             return item_type.decode(bytes)
         return bytes
diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 4016157..00dae69 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -166,6 +166,8 @@ class BSTR(with_metaclass(PrimitiveType, unicode)):
         if size == 0:
             return u''
         data = readn(f, 2 * size)
+        if len(data) < 2 * size:
+            raise OutOfData(2 * size, len(data))
         return decode_utf16le_with_hypua(data)
     read = staticmethod(read)
 
-- 
2.43.0


From 358960dec2420af64aebf4b0aa4f08960732f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:35 +0000
Subject: [PATCH 23/31] fix: data ending at a flags member raised KeyError
 instead of ParseError

---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 6625776..cb74edb 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -286,7 +286,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From d0cf45f1941dd22cbbdb3c6dc8623c6cd3d1bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 24/31] fix: refuse storages with an incomplete file header as
 invalid files

---
 src/hwp5/filestructure.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index a851385..818aead 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,6 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
+from .dataio import ParseError
 from .dataio import UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
@@ -107,11 +108,19 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
+    if not is_stream(fileheader):
+        logger.info('FileHeader is not a stream')
+        return False
     fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = fileheader.signature
+    except ParseError:
+        logger.info('FileHeader is incomplete')
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
-- 
2.43.0


From 5edfcbf73a4abc73800537e1cd5523bf0749239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 25/31] fix: hwp5proc find --tag=<number> fails for a tag
 number without a name

---
 src/hwp5/proc/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 5b08dcb..afcffcb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -185,7 +185,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From 19e3dcdfa86bbcb66ac1183a39ff9227a8e0d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:14 +0000
Subject: [PATCH 26/31] fix: OLE storages do not list the storages in them, nor
 empty ones

---
 src/hwp5/plat/olefileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..7681b9d 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -147,7 +147,7 @@ def olefile_listdir(olefile, path):
         # for python 2.3 compatibility
         yielded = []
 
-        for stream in olefile.listdir():
+        for stream in olefile.listdir(storages=True):
             top_item = stream[0]
             if top_item in yielded:
                 continue
@@ -160,7 +160,7 @@ def olefile_listdir(olefile, path):
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
     path_segments = path.split('/')
-    for stream in olefile.listdir():
+    for stream in olefile.listdir(storages=True):
         if len(stream) == len(path_segments) + 1:
             if stream[:-1] == path_segments:
                 yield stream[-1]
-- 
2.43.0


From 5f38a8d18c9281dbf64354c3d295a8eebbc0917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:38 +0000
Subject: [PATCH 27/31] fix: a directory storage opens things which it does not
 list (.., paths)

---
 src/hwp5/storage/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/storage/fs.py b/src/hwp5/storage/fs.py
index 226311d..f8b2155 100644
--- a/src/hwp5/storage/fs.py
+++ b/src/hwp5/storage/fs.py
@@ -33,6 +33,8 @@ class FileSystemStorage(object):
         return iter(sorted(os.listdir(self.path)))
 
     def __getitem__(self, name):
+        if name not in os.listdir(self.path):
+            raise KeyError(name)
         path = os.path.join(self.path, name)
         if os.path.isdir(path):
             return FileSystemStorage(path)
-- 
2.43.0


From 39add9ba111cf69adddc31d8bc8518d638588bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:25 +0000
Subject: [PATCH 28/31] fix: virtual streams are empty when they are opened
 again

---
 src/hwp5/binmodel/__init__.py | 5 ++++-
 src/hwp5/recordstream.py      | 5 ++++-
 src/hwp5/xmlmodel.py          | 7 +++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..573e4f1 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -466,9 +466,12 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+        d['.models'] = self.open_models_json
         return d
 
+    def open_models_json(self):
+        return self.models_json().open()
+
     def parse_model_events(self):
         context = dict(version=self.version)
 
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..e4c7e22 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -183,7 +183,10 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n)
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        return {'.records': self.open_records_json}
+
+    def open_records_json(self):
+        return self.records_json().open()
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index c556e79..3b1034b 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -628,6 +628,9 @@ class XmlEventsMixin(object):
     def xmlevents(self, **kwargs):
         return XmlEvents(self.events(**kwargs))
 
+    def open_xml(self):
+        return self.xmlevents().open()
+
 
 class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
@@ -640,7 +643,7 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = self.open_xml
         return d
 
 
@@ -787,7 +790,7 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = self.open_xml
         return d
 
 
-- 
2.43.0


From 2890dd703f4a460bc5568ce7dd7dec9b32152bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 29/31] fix: a list header, control data or shape component
 record without a parent raises KeyError

---
 src/hwp5/binmodel/tagid56_list_header.py     | 2 +-
 src/hwp5/binmodel/tagid60_shape_component.py | 2 +-
 src/hwp5/binmodel/tagid71_ctrl_data.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/binmodel/tagid56_list_header.py b/src/hwp5/binmodel/tagid56_list_header.py
index 4547a28..2114eb9 100644
--- a/src/hwp5/binmodel/tagid56_list_header.py
+++ b/src/hwp5/binmodel/tagid56_list_header.py
@@ -82,7 +82,7 @@ class ListHeader(with_metaclass(ListHeaderType, RecordModel)):
         if 'parent' in context:
             context, model = context['parent']
             seen_table_body = context.get('seen_table_body', False)
-            return model['type'], seen_table_body
+            return model.get('type'), seen_table_body
     get_extension_key = staticmethod(get_extension_key)
 
 
diff --git a/src/hwp5/binmodel/tagid60_shape_component.py b/src/hwp5/binmodel/tagid60_shape_component.py
index f00e1c8..ae3e226 100644
--- a/src/hwp5/binmodel/tagid60_shape_component.py
+++ b/src/hwp5/binmodel/tagid60_shape_component.py
@@ -76,7 +76,7 @@ def parent_must_be_gso(context, values):
     # it may be a GSO model's attribute, e.g. 'child_chid'
     if 'parent' in context:
         parent_context, parent_model = context['parent']
-        return parent_model['type'] is GShapeObjectControl
+        return parent_model.get('type') is GShapeObjectControl
 
 
 def chid_is_container(context, values):
diff --git a/src/hwp5/binmodel/tagid71_ctrl_data.py b/src/hwp5/binmodel/tagid71_ctrl_data.py
index 14f6f77..965ff5f 100644
--- a/src/hwp5/binmodel/tagid71_ctrl_data.py
+++ b/src/hwp5/binmodel/tagid71_ctrl_data.py
@@ -52,5 +52,5 @@ class ControlData(with_metaclass(ControlDataType, RecordModel)):
         ''' parent model type '''
         parent = context.get('parent')
         if parent:
-            return parent[1]['type']
+            return parent[1].get('type')
     get_extension_key = classmethod(get_extension_key)
-- 
2.43.0


From 14b74d10d1f18e3389942b0e6791c40061f5b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:44 +0000
Subject: [PATCH 30/31] fix: a field left open, or ended once too often, in a
 line inside another line made the events of the document ill nested

---
 src/hwp5/xmlmodel.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 3b1034b..7a23e50 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -404,47 +404,56 @@ def make_paragraphs_children_of_listheader(event_prefixed_mac,
 
 
 def match_field_start_end(event_prefixed_mac):
-    stack = []
+    stack = []  # fields opened and not closed
+    lines = [0]  # where the fields of each (nested) line begin in the stack
+    pending = []  # fields still not closed, to be opened again in a line
     for event, item in event_prefixed_mac:
         (model, attributes, context) = item
         if issubclass(model, Field):
-            for x in mfse_field(event, stack, item):
+            for x in mfse_field(event, stack, lines, pending, item):
                 yield x
         elif model is LineSeg:
-            for x in mfse_lineseg(event, stack, item):
+            for x in mfse_lineseg(event, stack, lines, pending, item):
                 yield x
         elif model is ControlChar and attributes['name'] == 'FIELD_END':
-            for x in mfse_field_end(event, stack, item):
+            for x in mfse_field_end(event, stack, lines, pending, item):
                 yield x
         else:
             yield event, item
 
 
-def mfse_field(event, stack, item):
+def mfse_field(event, stack, lines, pending, item):
     if event is STARTEVENT:
         stack.append(item)
+        pending[:] = stack[lines[-1]:]
         yield event, item
     else:
         pass
 
 
-def mfse_lineseg(event, stack, item):
+def mfse_lineseg(event, stack, lines, pending, item):
     if event is ENDEVENT:
         # fields still not closed; temporarily close them
-        for field_item in reversed(stack):
+        start = lines.pop()
+        pending[:] = stack[start:]
+        for field_item in reversed(pending):
             yield ENDEVENT, field_item
+        del stack[start:]
         yield event, item
     elif event is STARTEVENT:
         yield event, item
         # fields temporarily closed; open them again
-        for field_item in stack:
+        lines.append(len(stack))
+        for field_item in pending:
             yield STARTEVENT, field_item
+        stack.extend(pending)
 
 
-def mfse_field_end(event, stack, item):
+def mfse_field_end(event, stack, lines, pending, item):
     if event is ENDEVENT:
-        if len(stack) > 0:
+        if len(stack) > lines[-1]:
             yield event, stack.pop()
+            pending[:] = stack[lines[-1]:]
         else:
             logger.warning('unmatched field end')
 
-- 
2.43.0


From 9c7e75933c974518e9f14ad61b55cfdfa1807153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:19 +0000
Subject: [PATCH 31/31] fix: restructure sections without a section definition

wrap_section() lost all the events of a section that has no SectionDef and
ended an element that was never started; wrap_columns() failed on a paragraph
that begins columns at the top.
---
 src/hwp5/xmlmodel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 7a23e50..400a944 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -284,7 +284,12 @@ def wrap_section(event_prefixed_mac, sect_id=None):
                 started = True
             else:
                 starting_buffer.append((event, item))
-    yield ENDEVENT, sectiondef
+    if started:
+        yield ENDEVENT, sectiondef
+    else:
+        # no SectionDef: nothing to wrap with
+        for evented_item in starting_buffer:
+            yield evented_item
 
 
 class ColumnSet:
@@ -305,7 +310,7 @@ def wrap_columns(event_prefixed_mac):
                 split = Paragraph.SplitFlags(split)
 
                 if split.new_columnsdef:
-                    if stack[-1][0] is ColumnSet:
+                    if stack and stack[-1][0] is ColumnSet:
                         yield ENDEVENT, stack.pop()
 
                     columns = (ColumnSet, {}, {})
@@ -323,6 +328,9 @@ def wrap_columns(event_prefixed_mac):
 
         yield event, item
 
+    while stack:
+        yield ENDEVENT, stack.pop()
+
 
 def make_extended_controls_inline(event_prefixed_mac, stack=None):
     ''' inline extended-controls into paragraph texts '''
-- 
2.43.0

