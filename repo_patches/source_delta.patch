From 427f19a2985723d80d5546322acbed17cf5628e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 01/57] fix: drop buffered data when rewinding a
 DecompressMemMapReader

Data left over from the header read stayed in the buffer when rewinding before
it was depleted, and was then parsed as header or returned out of order.
---
 gitdb/stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..93324a1 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,9 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        # anything buffered belongs to the previous position
+        self._buf = None
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From f210b56f4f037bf2f6894c9e13c9799831ccaaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 02/57] fix: return exactly the requested amount of bytes from
 DecompressMemMapReader.read

Data taken from the buffer was subtracted twice from the amount still to be
read, which made it return too much, and a window which did not yield data yet
was mistaken for the end of the stream.
---
 gitdb/stream.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 93324a1..01cb387 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -313,11 +313,11 @@ class DecompressMemMapReader(LazyMixin):
         # it can happen, depending on the compression, that we get less bytes
         # than ordered as it needs the final portion of the data as well.
         # Recursively resolve that.
-        # Note: dcompdat can be empty even though we still appear to have bytes
-        # to read, if we are called by compressed_bytes_read - it manipulates
-        # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
+        # Note: a small window may not yield any data at all, this doesn't mean the
+        # stream is depleted. It is only if it has ended, or if there is no more input.
+        missing = size - (len(dcompdat) - len(dat))
+        if missing > 0 and self._br < self._s and indata and not self._zip.eof:
+            dcompdat += self.read(missing)
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 7f0c34e468e36faf8d73dc08a2670f4eec2af20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 03/57] fix: count trailing bytes once in compressed_bytes_read

At the end of a zlib stream its unconsumed tail and its unused data may both
hold the bytes which follow the stream.
---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 01cb387..a024ed0 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -299,8 +299,11 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # the unconsumed tail may contain the very same bytes
+            unused_datalen = len(self._zip.unused_data)
         else:
-            unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
+            unused_datalen = len(self._zip.unconsumed_tail)
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-- 
2.43.0


From 77d3893f3be471c862af912279dd0c717e52b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 04/57] fix: make compressed_bytes_read terminate for empty
 objects

Nothing was ever read to get to the end of the compressed stream if the object
has no content, which prevented iterating a pack with an empty blob.
---
 gitdb/stream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index a024ed0..2c0935f 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -174,8 +174,9 @@ class DecompressMemMapReader(LazyMixin):
         # bytes we were to have.
         if self._br == self._s and not self._zip.unused_data:
             # manipulate the bytes-read to allow our own read method to continue
-            # but keep the window at its current position
-            self._br = 0
+            # but keep the window at its current position. Be sure there is something
+            # to read in any case, even if the object is empty.
+            self._br = self._s - mmap.PAGESIZE
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
                     self.read(mmap.PAGESIZE)
-- 
2.43.0


From 06b0121611be2a9d1d67842af3646505607be207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:12 +0000
Subject: [PATCH 05/57] fix: resolve offset deltas which are the base of a
 reference delta

The offset of such a delta is relative to its own position in the pack.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From 1c9d6720501629319eb6a36f55adf9cd3a1d9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 06/57] fix: return the amount of written bytes from
 FlexibleSha1Writer.write

It is a Sha1Writer, and write_object() sums up the return values, so that
storing into a database redirected to it failed with a TypeError.
---
 gitdb/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 2c0935f..6124960 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -605,8 +605,9 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
+        return alen
 
 
 class ZippedStoreShaWriter(Sha1Writer):
-- 
2.43.0


From eea491fcf23d6ccf1bbafcb513677907279d4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 07/57] fix: store encoded objects as they are in MemoryDB

An input stream with its sha set is in object format already. It was
compressed a second time, and could not be read back.
---
 gitdb/db/mem.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..b8b14d4 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -24,7 +24,10 @@ from gitdb.stream import (
     DecompressMemMapReader,
 )
 
+from gitdb.fun import stream_copy
+
 from io import BytesIO
+import sys
 
 __all__ = ("MemoryDB", )
 
@@ -47,16 +50,21 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
-        zstream.seek(0)
+        if istream.binsha is not None:
+            # the stream is in object format already, it must not be compressed again
+            data = BytesIO()
+            stream_copy(istream.read, data.write, sys.maxsize, self._db.stream_chunk_size)
+        else:
+            data = ZippedStoreShaWriter()
+            self._db.set_ostream(data)
+
+            istream = self._db.store(istream)
+            data.close()     # close to flush
+        # END handle direct stream copies
 
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
-        decomp_stream = DecompressMemMapReader(zstream.getvalue(), close_on_deletion=False)
+        decomp_stream = DecompressMemMapReader(data.getvalue(), close_on_deletion=False)
         self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
 
         return istream
-- 
2.43.0


From 3947a521f649a11a84d48f04b71eeb70afcc6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 08/57] fix: report the type of objects in MemoryDB as bytes

A type given as str was returned as it is, unlike in other databases, and
is not known to type_to_type_id_map.
---
 gitdb/db/mem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index b8b14d4..f91ef0b 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -25,6 +25,7 @@ from gitdb.stream import (
 )
 
 from gitdb.fun import stream_copy
+from gitdb.utils.encoding import force_bytes
 
 from io import BytesIO
 import sys
@@ -65,7 +66,7 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
         decomp_stream = DecompressMemMapReader(data.getvalue(), close_on_deletion=False)
-        self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
+        self._cache[istream.binsha] = OStream(istream.binsha, force_bytes(istream.type), istream.size, decomp_stream)
 
         return istream
 
-- 
2.43.0


From d5c21637e6a33f1c21aa17d3206463116e5e96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 09/57] fix: refuse deltas which copy from outside of their
 base

apply_delta_data stopped silently in that case, which was only noticed if
commands followed.
---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..8533fcc 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -664,7 +664,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies from outside of its base")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
-- 
2.43.0


From 32455ff9c71430532da41903d11377d46ae2c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 10/57] fix: verify the declared sizes when applying deltas

A delta whose base has another size, or which produces less than it declares,
was resolved to wrong bytes, which includes uninitialized ones.
---
 gitdb/stream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 6124960..ab42364 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -450,7 +450,12 @@ class DeltaApplyReader(LazyMixin):
         # For the actual copying, we use a seek and write pattern of buffer
         # slices.
         final_target_size = None
+        base_size = self._bstream.size
         for (dbuf, offset, src_size, target_size), dstream in zip(reversed(buffer_info_list), reversed(self._dstreams)):
+            if src_size != base_size:
+                raise ValueError("delta was made for a base of %i bytes, got %i" % (src_size, base_size))
+            # END verify base
+
             # allocate a buffer to hold all delta data - fill in the data for
             # fast access. We do this as we know that reading individual bytes
             # from our stream would be slower than necessary ( although possible )
@@ -466,6 +471,9 @@ class DeltaApplyReader(LazyMixin):
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("delta produced %i bytes instead of %i" % (tbuf.tell(), target_size))
+                # END verify result
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
@@ -473,7 +481,7 @@ class DeltaApplyReader(LazyMixin):
             bbuf, tbuf = tbuf, bbuf
             bbuf.seek(0)
             tbuf.seek(0)
-            final_target_size = target_size
+            base_size = final_target_size = target_size
         # END for each delta to apply
 
         # its already seeked to 0, constrain it to the actual size
-- 
2.43.0


From 99dfac65c5d69ac4f2fae635a92b4813ab194186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 11/57] fix: make merging of deltas work on python 3

connect_deltas, the chunk list it uses and is_loose_object relied on bytes
being strings and on integer division. The integrity check of a list without
chunks raised an IndexError.
---
 gitdb/fun.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 8533fcc..5fd5efb 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -23,7 +23,7 @@ from gitdb.typ import (
     str_tag_type,
 )
 
-from io import StringIO
+from io import BytesIO
 
 # INVARIANTS
 OFS_DELTA = 6
@@ -154,7 +154,7 @@ def _closest_index(dcl, absofs):
     lo = 0
     hi = len(dcl)
     while lo < hi:
-        mid = (lo + hi) / 2
+        mid = (lo + hi) // 2
         dc = dcl[mid]
         if dc.to > absofs:
             hi = mid
@@ -261,7 +261,7 @@ class DeltaChunkList(list):
             if dc.data is None:
                 if first_data_index is not None and i - 2 - first_data_index > 1:
                     # if first_data_index is not None:
-                    nd = StringIO()                     # new data
+                    nd = BytesIO()                      # new data
                     so = self[first_data_index].to      # start offset in target buffer
                     for x in range(first_data_index, i - 1):
                         xdc = self[x]
@@ -294,7 +294,7 @@ class DeltaChunkList(list):
         :param target_size: if not -1, the total size of the chain must be target_size
         :raise AssertionError: if the size doesn't match"""
         if target_size > -1:
-            assert self[-1].rbound() == target_size
+            assert self.rbound() == target_size
             assert reduce(lambda x, y: x + y, (d.ts for d in self), 0) == target_size
         # END target size verification
 
@@ -310,7 +310,7 @@ class DeltaChunkList(list):
 
         left = islice(self, 0, len(self) - 1)
         right = iter(self)
-        right.next()
+        next(right)
         # this is very pythonic - we might have just use index based access here,
         # but this could actually be faster
         for lft, rgt in zip(left, right):
@@ -395,7 +395,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = bytearray(m[:2])
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
@@ -556,30 +556,30 @@ def connect_deltas(dstreams):
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
         while i < delta_buf_size:
-            c = ord(db[i])
+            c = db[i]
             i += 1
             if c & 0x80:
                 cp_off, cp_size = 0, 0
                 if (c & 0x01):
-                    cp_off = ord(db[i])
+                    cp_off = db[i]
                     i += 1
                 if (c & 0x02):
-                    cp_off |= (ord(db[i]) << 8)
+                    cp_off |= (db[i] << 8)
                     i += 1
                 if (c & 0x04):
-                    cp_off |= (ord(db[i]) << 16)
+                    cp_off |= (db[i] << 16)
                     i += 1
                 if (c & 0x08):
-                    cp_off |= (ord(db[i]) << 24)
+                    cp_off |= (db[i] << 24)
                     i += 1
                 if (c & 0x10):
-                    cp_size = ord(db[i])
+                    cp_size = db[i]
                     i += 1
                 if (c & 0x20):
-                    cp_size |= (ord(db[i]) << 8)
+                    cp_size |= (db[i] << 8)
                     i += 1
                 if (c & 0x40):
-                    cp_size |= (ord(db[i]) << 16)
+                    cp_size |= (db[i] << 16)
                     i += 1
 
                 if not cp_size:
-- 
2.43.0


From e18c5193c1aef464eeafeca963c32d5a503296ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:44 +0000
Subject: [PATCH 12/57] fix: resolve 64 bit offsets in PackIndexFile.offsets

The index into the table of 64 bit offsets was returned as it is. Verification
by crc, which maps offsets to their successor, failed because of that.
---
 gitdb/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..2f10073 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,10 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+
+            # the high bit marks indices into the table of 64 bit offsets
+            if any(offset & 0x80000000 for offset in a):
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From 0f2ff24c5ab4fd6e239589e53bca9f2c8c7cea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:44 +0000
Subject: [PATCH 13/57] fix: raise if an abbreviated sha matches several
 objects in one pack

The next sha was compared to the first match instead of the abbreviation, and
the first object was returned.
---
 gitdb/pack.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 2f10073..2bd3625 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -485,11 +485,14 @@ class PackIndexFile(LazyMixin):
         if lo < self.size():
             cur_sha = get_sha(lo)
             if is_equal_canonical_sha(canonical_length, partial_bin_sha, cur_sha):
-                next_sha = None
-                if lo + 1 < self.size():
-                    next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
-                    raise AmbiguousObjectName(partial_bin_sha)
+                for index in range(lo + 1, self.size()):
+                    next_sha = get_sha(index)
+                    if next_sha == cur_sha:
+                        continue
+                    if is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
+                        raise AmbiguousObjectName(partial_bin_sha)
+                    break
+                # END for each following sha
                 return lo
             # END if we have a match
         # END if we found something
-- 
2.43.0


From e252ad402fa7f1a4b26f667bb6d821ef50c9f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:44 +0000
Subject: [PATCH 14/57] fix: accept abbreviations with upper case digits for
 loose objects

Packs do already, and composite databases pass the same abbreviation to both.
---
 gitdb/db/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..b0d288f 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -111,8 +111,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         :raise AmbiguousObjectName:
         :raise BadObject: """
         candidate = None
+        partial_hexsha = force_bytes(partial_hexsha).lower()
         for binsha in self.sha_iter():
-            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha)):
+            if bin_to_hex(binsha).startswith(partial_hexsha):
                 # it can't ever find the same object twice
                 if candidate is not None:
                     raise AmbiguousObjectName(partial_hexsha)
-- 
2.43.0


From a2cc99a7198df4e4c42697a2adecbc36c4ee2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:23 +0000
Subject: [PATCH 15/57] fix: end the search for the base of reference deltas
 leading in a circle

---
 gitdb/pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 2bd3625..a38e7a3 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -881,6 +881,8 @@ class PackEntity(LazyMixin):
         # a REF delta, or a base object, as OFFSET deltas are resolved by the pack
         if streams[-1].type_id == REF_DELTA:
             stream = streams[-1]
+            # the offsets already passed - references leading in a circle can't be resolved
+            seen = {s.pack_offset for s in streams}
             while stream.type_id in delta_types:
                 if stream.type_id == REF_DELTA:
                     # smmap can return memory view objects, which can't be compared as buffers/bytes can ...
@@ -890,7 +892,10 @@ class PackEntity(LazyMixin):
                         sindex = self._index.sha_to_index(stream.delta_info)
                     if sindex is None:
                         break
-                    stream = self._pack.stream(self._index.offset(sindex))
+                    base_offset = self._index.offset(sindex)
+                    if base_offset in seen:
+                        break
+                    stream = self._pack.stream(base_offset)
                     streams.append(stream)
                 else:
                     # must be another OFS DELTA - this could happen if a REF
@@ -899,6 +904,7 @@ class PackEntity(LazyMixin):
                     stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
+                seen.add(stream.pack_offset)
             # END resolve ref streams
         # END resolve streams
 
-- 
2.43.0


From 4f5d14ce74dbf0caab628180dff1be29b7a91fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:23 +0000
Subject: [PATCH 16/57] fix: raise BadObject if the stream of an unresolvable
 delta is requested

---
 gitdb/pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index a38e7a3..7c96b49 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -742,6 +742,8 @@ class PackEntity(LazyMixin):
             # To prevent it from applying the deltas when querying the size,
             # we extract it from the delta stream ourselves
             streams = self.collect_streams_at_offset(offset)
+            if streams[-1].type_id in delta_types:
+                raise BadObject(sha, "Could not resolve delta object")
             dstream = DeltaApplyReader.new(streams)
 
             return ODeltaStream(sha, dstream.type, None, dstream)
-- 
2.43.0


From ddd18518658e464266431e4a6ebff057461e9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 17/57] fix: raise BadObject if an offset delta does not refer
 to an earlier object

---
 gitdb/pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 7c96b49..16cb870 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -617,6 +617,9 @@ class PackFile(LazyMixin):
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
                 offset = ostream.pack_offset - ostream.delta_info
+                # the base comes before its delta, anything else can't be resolved
+                if not self.first_object_offset <= offset < ostream.pack_offset:
+                    break
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
                 # else is either an object, or a ref delta, in the latter
@@ -903,7 +906,10 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
+                    base_offset = stream.pack_offset - stream.delta_info
+                    if not self._pack.first_object_offset <= base_offset < stream.pack_offset:
+                        break
+                    stream = self._pack.stream(base_offset)
                     streams.append(stream)
                 # END handle ref delta
                 seen.add(stream.pack_offset)
-- 
2.43.0


From 307100ceb7c3f8adaa8974eee60ce2c5e22fbb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:27 +0000
Subject: [PATCH 18/57] fix: report damaged objects as invalid in
 PackEntity.is_valid_stream

---
 gitdb/pack.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 16cb870..024937d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -857,7 +857,6 @@ class PackEntity(LazyMixin):
             # write a loose object, which is the basis for the sha
             write_object(stream.type, stream.size, stream.read, shawriter.write)
 
-            assert shawriter.sha(as_hex=False) == sha
             return shawriter.sha(as_hex=False) == sha
         # END handle crc/sha verification
         return True
-- 
2.43.0


From 876ca9ef4ddab1a9eb0683802715c41bdb45d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 19/57] fix: make the membership operator of object databases
 work

---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From 790db24c7cfeba7ebd80892a74fe2eb9c2f120a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 20/57] fix: ignore packs without index in PackedDB

---
 gitdb/db/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..7269827 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -146,7 +146,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # Those without index are not (or no longer) complete
+        pack_files = {p for p in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      if os.path.isfile(os.path.splitext(p)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From 2ba576db7ff36c3592de394ee177f67cea10320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 21/57] fix: do not claim to have loose objects which have been
 deleted

---
 gitdb/db/loose.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index b0d288f..dff42a5 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -76,7 +76,6 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
 
     def __init__(self, root_path):
         super().__init__(root_path)
-        self._hexsha_to_file = dict()
         # Additional Flags - might be set to 0 after the first failure
         # Depending on the root, this might work for some mounts, for others not, which
         # is why it is per instance
@@ -93,16 +92,10 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         """
         :return: readable object path to the object identified by hexsha
         :raise BadObject: If the object file does not exist"""
-        with suppress(KeyError):
-            return self._hexsha_to_file[hexsha]
-        # END ignore cache misses
-
-        # try filesystem
+        # always ask the filesystem, others may have removed or packed the object
         path = self.db_path(self.object_path(hexsha))
         if exists(path):
-            self._hexsha_to_file[hexsha] = path
             return path
-        # END handle cache
         raise BadObject(hexsha)
 
     def partial_to_complete_sha_hex(self, partial_hexsha):
-- 
2.43.0


From 5d3f31ae64f636787ed7d26d78b93bf13e23bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 22/57] fix: discover packs and alternates created after a
 GitDB was opened

---
 gitdb/db/git.py | 64 +++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..fe58c8e 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -40,37 +40,55 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
     def __init__(self, root_path):
         """Initialize ourselves on a git objects directory"""
         super().__init__(root_path)
+        self._path_to_db = dict()
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
             self._dbs = list()
-            loose_db = None
-            for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
-                                   (self.loose_dir, self.LooseDBCls),
-                                   (self.alternates_dir, self.ReferenceDBCls)):
-                path = self.db_path(subpath)
-                if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
-                    if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
-                    # END remember loose db
-                # END check path exists
-            # END for each db type
-
-            # should have at least one subdb
-            if not self._dbs:
-                raise InvalidDBRoot(self.root_path())
-            # END handle error
-
-            # we the first one should have the store method
-            assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
-
-            # finally set the value
-            self._loose_db = loose_db
+            self._update_dbs()
         else:
             super()._set_cache_(attr)
         # END handle attrs
 
+    def _update_dbs(self):
+        """Use one database for each storage location which currently exists, keeping
+        the databases which we have already"""
+        dbs = dict()
+        loose_db = None
+        for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
+                               (self.loose_dir, self.LooseDBCls),
+                               (self.alternates_dir, self.ReferenceDBCls)):
+            path = self.db_path(subpath)
+            if os.path.exists(path):
+                db = self._path_to_db.get(path)
+                if db is None:
+                    db = dbcls(path)
+                # END create database if needed
+                dbs[path] = db
+                if dbcls is self.LooseDBCls:
+                    loose_db = db
+                # END remember loose db
+            # END check path exists
+        # END for each db type
+
+        # should have at least one subdb
+        if not dbs:
+            raise InvalidDBRoot(self.root_path())
+        # END handle error
+
+        # we the first one should have the store method
+        assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
+
+        # finally set the values
+        self._path_to_db = dbs
+        self._dbs = list(dbs.values())
+        self._loose_db = loose_db
+
+    def update_cache(self, force=False):
+        # storage locations might have been created or removed
+        self._update_dbs()
+        return super().update_cache(force)
+
     #{ ObjectDBW interface
 
     def store(self, istream):
-- 
2.43.0


From 1332b247bfd2324e5dc3be4e2af0ea87f44dfb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 23/57] fix: drop alternates whose directory vanished instead
 of failing to update

---
 gitdb/db/ref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..8eea824 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -3,6 +3,7 @@
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -49,6 +50,8 @@ class ReferenceDB(CompoundDB):
         # END handle alternates
 
         ref_paths_set = set(ref_paths)
+        # those which are gone can't be used anymore, they are picked up if they come back
+        self._dbs = [db for db in self._dbs if os.path.isdir(db.root_path())]
         cur_ref_paths_set = {db.root_path() for db in self._dbs}
 
         # remove existing
-- 
2.43.0


From 027bbd28f334cefbc29377b7d8a2c50f534d6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 24/57] fix: don't fail on alternates which are not encoded in
 utf-8

---
 gitdb/db/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 8eea824..db065b4 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -43,7 +43,7 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
+            with codecs.open(self._ref_file, 'r', encoding="utf-8", errors="surrogateescape") as f:
                 ref_paths = [l.strip() for l in f]
         except OSError:
             pass
-- 
2.43.0


From e41a29336bcfb9f8ec2c01bf45dd4eb41d4d3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:04 +0000
Subject: [PATCH 25/57] fix: don't follow alternates in circles

---
 gitdb/db/git.py | 5 +++++
 gitdb/db/ref.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index fe58c8e..79d9ef5 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -41,6 +41,8 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
         """Initialize ourselves on a git objects directory"""
         super().__init__(root_path)
         self._path_to_db = dict()
+        # directories of the databases which use us as alternate
+        self._parents = tuple()
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
@@ -63,6 +65,9 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
                 db = self._path_to_db.get(path)
                 if db is None:
                     db = dbcls(path)
+                    if dbcls is self.ReferenceDBCls:
+                        db._parents = self._parents + (os.path.realpath(self.root_path()), )
+                    # END let alternates know who uses them
                 # END create database if needed
                 dbs[path] = db
                 if dbcls is self.LooseDBCls:
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index db065b4..3098c93 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -23,6 +23,8 @@ class ReferenceDB(CompoundDB):
     def __init__(self, ref_file):
         super().__init__()
         self._ref_file = ref_file
+        # directories of the databases which use us, directly or as alternate
+        self._parents = tuple()
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
@@ -68,7 +70,11 @@ class ReferenceDB(CompoundDB):
         added_paths = sorted(ref_paths_set - cur_ref_paths_set, key=lambda p: ref_paths.index(p))
         for path in added_paths:
             try:
+                # alternates leading back to one of their users have nothing to add
+                if os.path.realpath(path) in self._parents:
+                    continue
                 db = dbcls(path)
+                db._parents = self._parents
                 # force an update to verify path
                 if isinstance(db, CompoundDB):
                     db.databases()
-- 
2.43.0


From 54bfaa9cf4905c32efb490436f2da40adebcb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 26/57] fix: don't use a cached database which lost the object

---
 gitdb/db/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 245bce2..567527b 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -183,10 +183,10 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
         :raise BadObject:"""
         # most databases use binary representations, prevent converting
         # it every time a database is being queried
-        try:
-            return self._db_cache[sha]
-        except KeyError:
-            pass
+        db = self._db_cache.get(sha)
+        # others may have removed the object from there
+        if db is not None and db.has_object(sha):
+            return db
         # END first level cache
 
         for db in self._dbs:
-- 
2.43.0


From e6f3892c6d01ce017a589d355e87b3989eb52afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 27/57] fix: don't let threads miss objects while packs are
 being sorted

---
 gitdb/db/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 7269827..15e8f51 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -55,7 +55,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # END handle entities initialization
 
     def _sort_entities(self):
-        self._entities.sort(key=lambda l: l[0], reverse=True)
+        # Bind a new list: sorting in place empties the list while it goes on, and moves
+        # packs under the feet of other threads which are iterating it
+        self._entities = sorted(self._entities, key=lambda l: l[0], reverse=True)
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
-- 
2.43.0


From 1538fcf4d41ef6bd6719f26b56aed9a01688c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 28/57] fix: don't let threads read from each others position
 in a pack

---
 gitdb/pack.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 024937d..5d97311 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -67,12 +67,31 @@ import tempfile
 import array
 import os
 import sys
+import threading
 
 __all__ = ('PackIndexFile', 'PackFile', 'PackEntity')
 
 
 #{ Utilities
 
+# Neither the memory manager nor its cursors may be used by several threads at once
+_cursor_lock = threading.RLock()
+
+
+def cursor_of(path):
+    """:return: new cursor into the beginning of the file at the given path"""
+    with _cursor_lock:
+        return mman.make_cursor(path).use_region()
+
+
+def cursor_buffer(cursor, offset):
+    """:return: buffer with the data the given cursor provides at the offset.
+        The cursor is moved, hence it must not be queried for the data afterwards, as
+        another thread might have moved it in the meanwhile"""
+    with _cursor_lock:
+        return cursor.use_region(offset).buffer()
+
+
 def pack_object_at(cursor, offset, as_stream):
     """
     :return: Tuple(abs_data_offset, PackInfo|PackStream)
@@ -83,7 +102,7 @@ def pack_object_at(cursor, offset, as_stream):
     :parma offset: offset in to the data at which the object information is located
     :param as_stream: if True, a stream object will be returned that can read
         the data, otherwise you receive an info object only"""
-    data = cursor.use_region(offset).buffer()
+    data = cursor_buffer(cursor, offset)
     type_id, uncomp_size, data_rela_offset = pack_object_header_info(data)
     total_rela_offset = None                # set later, actual offset until data stream begins
     delta_info = None
@@ -273,7 +292,7 @@ class PackIndexFile(LazyMixin):
             # Note: We don't lock the file when reading as we cannot be sure
             # that we can actually write to the location - it could be a read-only
             # alternate for instance
-            self._cursor = mman.make_cursor(self._indexpath).use_region()
+            self._cursor = cursor_of(self._indexpath)
             # We will assume that the index will always fully fit into memory !
             if mman.window_size() > 0 and self._cursor.file_size() > mman.window_size():
                 raise AssertionError("The index file at %s is too large to fit into a mapped window (%i > %i). This is a limitation of the implementation" % (
@@ -538,7 +557,7 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = mman.make_cursor(self._packpath).use_region()
+        self._cursor = cursor_of(self._packpath)
 
         # read the header information
         type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
@@ -592,7 +611,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return self._cursor.use_region(self._cursor.file_size() - 20).buffer()[:]
+        return cursor_buffer(self._cursor, self._cursor.file_size() - 20)[:]
 
     def path(self):
         """:return: path to the packfile"""
@@ -734,7 +753,7 @@ class PackEntity(LazyMixin):
             sha = self._index.sha(index)
         # END assure sha is present ( in output )
         offset = self._index.offset(index)
-        type_id, uncomp_size, data_rela_offset = pack_object_header_info(self._pack._cursor.use_region(offset).buffer())
+        type_id, uncomp_size, data_rela_offset = pack_object_header_info(cursor_buffer(self._pack._cursor, offset))
         if as_stream:
             if type_id not in delta_types:
                 packstream = self._pack.stream(offset)
-- 
2.43.0


From abaf7e4b3988f3df542e69b8826f72c286b52a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 29/57] fix: read packs larger than the window of the memory
 manager

---
 gitdb/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..47d4515 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -19,7 +19,9 @@ from smmap import (
 
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
-mman = SlidingWindowMapManager()
+# Packs are accessed assuming that everything from an offset to the end of the file is
+# available, hence files must be mapped as a whole
+mman = StaticWindowMapManager()
 # END handle mman
 
 import hashlib
-- 
2.43.0


From 6fbaf18145312e6d35a91776e9d224817c6a02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 30/57] fix: don't let the memory manager unmap packs which are
 still being read

---
 gitdb/pack.py   | 5 +++--
 gitdb/stream.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 5d97311..3af43a9 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -124,7 +124,7 @@ def pack_object_at(cursor, offset, as_stream):
     # REF DELTA
     elif type_id == REF_DELTA:
         total_rela_offset = data_rela_offset + 20
-        delta_info = data[data_rela_offset:total_rela_offset]
+        delta_info = bytes(data[data_rela_offset:total_rela_offset])
     # BASE OBJECT
     else:
         # assume its a base object
@@ -133,6 +133,7 @@ def pack_object_at(cursor, offset, as_stream):
     abs_data_offset = offset + total_rela_offset
     if as_stream:
         stream = DecompressMemMapReader(data[total_rela_offset:], False, uncomp_size)
+        stream._cursor = cursor             # keep the memory mapped while it is in use
         if delta_info is None:
             return abs_data_offset, OPackStream(offset, type_id, uncomp_size, stream)
         else:
@@ -611,7 +612,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return cursor_buffer(self._cursor, self._cursor.file_size() - 20)[:]
+        return bytes(cursor_buffer(self._cursor, self._cursor.file_size() - 20))
 
     def path(self):
         """:return: path to the packfile"""
diff --git a/gitdb/stream.py b/gitdb/stream.py
index ab42364..51c7913 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -62,7 +62,7 @@ class DecompressMemMapReader(LazyMixin):
         to better support streamed reading - it would only need to keep the mmap
         and decompress it into chunks, that's all ... """
     __slots__ = ('_m', '_zip', '_buf', '_buflen', '_br', '_cws', '_cwe', '_s', '_close',
-                 '_cbr', '_phi')
+                 '_cbr', '_phi', '_cursor')
 
     max_read_size = 512 * 1024        # currently unused
 
-- 
2.43.0


From 7e291fbf30a7667743c4d20e69018e7b80b8e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 31/57] fix: close the descriptor of a loose object if its last
 write fails

FDCompressedSha1Writer.close() left the file descriptor open for good if the
remaining data could not be written, as on a full disk.
---
 gitdb/stream.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 51c7913..833f131 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -685,10 +685,13 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
+        # END assure the descriptor is released
 
     #} END stream interface
 
-- 
2.43.0


From febf37552c2d8465cff65db3dc8a04b818915408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 32/57] fix: don't ignore that a file descriptor took only part
 of the data

FDStream.write() dropped the bytes which os.write() didn't accept, so that
LooseObjectDB.store() of compressed data made an incomplete object visible
on a full disk.
---
 gitdb/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 833f131..f7b8037 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -708,8 +708,13 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        """:raise IOError: If not all bytes could be written
+        :return: length of the data"""
+        bytes_written = os.write(self._fd, data)
+        self._pos += bytes_written
+        if bytes_written != len(data):
+            raise OSError("Failed to write all bytes to filedescriptor")
+        return bytes_written
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From e080095822e9a27731053a831600fe52c078dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 33/57] fix: read everything from an FDStream

read() without a count used an attribute which doesn't exist.
---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index f7b8037..923dd9e 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -718,7 +718,7 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From cbb1aada7543d9421f275e8c4eb2fa25ff500df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 34/57] fix: remove the temporary file if a loose object can't
 be put in place

LooseObjectDB.store() left its temporary file in the database if the
directory of the object couldn't be created, or the rename failed.
---
 gitdb/db/loose.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index dff42a5..b18d6f4 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -214,14 +214,20 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
-                remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
+                with suppress(OSError):
+                    remove(tmp_path)
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From 7f8b94cac24de1d634deb95784dcd15b6c9a3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 35/57] fix: release the lock if a locked file can't be
 committed or closed

LockedFD.commit() and rollback() left the lock file behind, with nobody to
remove it, if the descriptor couldn't be closed without an error or the
file not be renamed.
---
 gitdb/util.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 47d4515..2b6e693 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -9,6 +9,7 @@ import sys
 import time
 import errno
 
+from contextlib import suppress
 from io import BytesIO
 
 from smmap import (
@@ -375,19 +376,28 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
+        lockfile = self._lockfilepath()
+        fd = self._fd
         self._fd = None
+        try:
+            os.close(fd)
+            if self._write and successful:
+                # on windows, rename does not silently overwrite the existing one
+                if sys.platform == "win32":
+                    if isfile(self._filepath):
+                        remove(self._filepath)
+                    # END remove if exists
+                # END win32 special handling
+                os.rename(lockfile, self._filepath)
+            # END put the new file in place
+        except:
+            # assure we release our lockfile
+            with suppress(OSError):
+                remove(lockfile)
+            raise
+        # END handle lockfile
 
-        lockfile = self._lockfilepath()
         if self._write and successful:
-            # on windows, rename does not silently overwrite the existing one
-            if sys.platform == "win32":
-                if isfile(self._filepath):
-                    remove(self._filepath)
-                # END remove if exists
-            # END win32 special handling
-            os.rename(lockfile, self._filepath)
-
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
             # protection as well
-- 
2.43.0


From 756ea8c226b441d59b5a3f5e240eb72812069d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 36/57] fix: release the lock if its descriptor can't be closed

LockedFD.open() left the lock file behind if closing it failed, in opening
the file for reading.
---
 gitdb/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 2b6e693..fc3fbe7 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -324,19 +324,18 @@ class LockedFD:
         lockmode = os.O_WRONLY | os.O_CREAT | os.O_EXCL | binary
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
-            if not write:
-                os.close(fd)
-            else:
-                self._fd = fd
-            # END handle file descriptor
         except OSError as e:
             raise OSError("Lock at %r could not be obtained" % self._lockfilepath()) from e
         # END handle lock retrieval
+        if write:
+            self._fd = fd
+        # END handle file descriptor
 
         # open actual file if required
         if self._fd is None:
             # we could specify exclusive here, as we obtained the lock anyway
             try:
+                os.close(fd)
                 self._fd = os.open(self._filepath, os.O_RDONLY | binary)
             except:
                 # assure we release our lockfile
-- 
2.43.0


From 110ccaeb2b822e5a3669f18814c9f23ceea4b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 37/57] fix: read all of a file from an FDStream, not what one
 call provides

A call reads at most 2 GB, so read() without a count cut off larger files.
---
 gitdb/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 923dd9e..d14d5a9 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -718,10 +718,12 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.fstat(self._fd).st_size
+            # a single call may provide less, at most 2 GB
+            bytes = b''.join(iter(lambda: os.read(self._fd, 1 << 20), b''))
+        else:
+            bytes = os.read(self._fd, count)
         # END handle read everything
 
-        bytes = os.read(self._fd, count)
         self._pos += len(bytes)
         return bytes
 
-- 
2.43.0


From 6da586fcd023fecee2adc7a7210c0388eb90d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 38/57] fix: name a new pack after its checksum

PackEntity.create() called the files pack-b'<checksum>'.pack and .idx.
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 3af43a9..16552d1 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1061,8 +1061,9 @@ class PackEntity(LazyMixin):
         os.close(index_fd)
 
         fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+        pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
+        new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+        new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
         os.rename(pack_path, new_pack_path)
         os.rename(index_path, new_index_path)
 
-- 
2.43.0


From d02eee3e511af9b7a69aa7fcdc82cb367ea720be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 39/57] fix: don't create incomplete packs if a file takes only
 part of the data

PackEntity.create() didn't notice that os.write() accepted less than it was
given, as on a full disk, and put a broken pack or index in place.
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 16552d1..bbcc803 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -55,6 +55,7 @@ from gitdb.stream import (
     DeltaApplyReader,
     Sha1Writer,
     NullStream,
+    FDStream,
     FlexibleSha1Writer
 )
 
@@ -1053,8 +1054,8 @@ class PackEntity(LazyMixin):
         **Note:** for more information on the other parameters see the write_pack method"""
         pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
         index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
+        pack_write = FDStream(pack_fd).write
+        index_write = FDStream(index_fd).write
 
         pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
         os.close(pack_fd)
-- 
2.43.0


From 967d48f456701020969d62357ab77dd87383534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 40/57] fix: leave nothing behind if a pack can't be created

PackEntity.create() left its temporary files, their descriptors, or a pack
without index behind if the objects couldn't be read or the files not be
written or renamed.
---
 gitdb/pack.py | 57 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index bbcc803..4e9393d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -64,6 +64,7 @@ from binascii import crc32
 
 from gitdb.const import NULL_BYTE
 
+from contextlib import suppress
 import tempfile
 import array
 import os
@@ -1052,21 +1053,47 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = FDStream(pack_fd).write
-        index_write = FDStream(index_fd).write
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
-        new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        fds = list()            # still open
+        paths = list()          # files which are not complete yet
+        try:
+            for prefix in ('pack', 'index'):
+                fd, path = tempfile.mkstemp('', prefix, base_dir)
+                fds.append(fd)
+                paths.append(path)
+            # END create temporary files
+            pack_path, index_path = paths
+            pack_write, index_write = (FDStream(fd).write for fd in fds)
+
+            pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
+            while fds:
+                os.close(fds.pop())
+            # END close files
+
+            fmt = "pack-%s.%s"
+            pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
+            new_paths = list()
+            try:
+                # If there is an index, the same pack is there already, and has to stay
+                os.stat(new_index_path)
+            except FileNotFoundError:
+                new_paths.append(new_pack_path)
+            # END handle existing pack
+            os.rename(pack_path, new_pack_path)
+            paths = [index_path] + new_paths
+            os.rename(index_path, new_index_path)
+        except:
+            for fd in fds:
+                with suppress(OSError):
+                    os.close(fd)
+            # END close files
+            for path in paths:
+                with suppress(OSError):
+                    os.remove(path)
+            # END remove files
+            raise
+        # END assure nothing is left on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From f9eb6bff1f104f16d337d06c00d6c4dca48fb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 41/57] fix: don't store an object if its stream provides less
 than its size

---
 gitdb/db/loose.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index b18d6f4..a0edfdc 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -44,6 +44,7 @@ from gitdb.util import (
 
 from gitdb.fun import (
     chunk_size,
+    loose_object_header,
     loose_object_header_info,
     write_object,
     stream_copy
@@ -191,8 +192,13 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
                     stream_copy(istream.read, writer.write, sys.maxsize, self.stream_chunk_size)
                 else:
                     # write object with header, we have to make a new one
-                    write_object(istream.type, istream.size, istream.read, writer.write,
-                                 chunk_size=self.stream_chunk_size)
+                    header = loose_object_header(istream.type, istream.size)
+                    bytes_written = write_object(istream.type, istream.size, istream.read, writer.write,
+                                                 chunk_size=self.stream_chunk_size)
+                    if bytes_written != len(header) + istream.size:
+                        raise ValueError("Expected to store %i bytes, but received only %i" % (
+                            istream.size, bytes_written - len(header)))
+                    # END assure the object is complete
                 # END handle direct stream copies
             finally:
                 if tmp_path:
-- 
2.43.0


From cb2b660d8fd7b63abe63b979ad7f20aa2ed665a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:44 +0000
Subject: [PATCH 42/57] fix: don't report a version for an index which was
 refused because of its version

PackIndexFile.version() raised for an index of an unknown version when asked first, but answered 2 from then on
---
 gitdb/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 4e9393d..e0828c0 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -307,11 +307,12 @@ class PackIndexFile(LazyMixin):
 
             # CHECK VERSION
             mmap = self._cursor.map()
-            self._version = (mmap[:4] == self.index_v2_signature and 2) or 1
-            if self._version == 2:
+            version = (mmap[:4] == self.index_v2_signature and 2) or 1
+            if version == 2:
                 version_id = unpack_from(">L", mmap, 4)[0]
-                assert version_id == self._version, "Unsupported index version: %i" % version_id
+                assert version_id == version, "Unsupported index version: %i" % version_id
             # END assert version
+            self._version = version
 
             # SETUP FUNCTIONS
             # setup our functions according to the actual version
-- 
2.43.0


From d01444ae1385956e4a97dc498ba39c6ebc893a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:44 +0000
Subject: [PATCH 43/57] fix: keep refusing a file which is not a pack

PackFile raised ParseError for a file without pack signature only on first access, and read it like a pack on the next one
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e0828c0..d1a33a8 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -561,15 +561,16 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = cursor_of(self._packpath)
+        cursor = cursor_of(self._packpath)
 
         # read the header information
-        type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
+        type_id, version, size = unpack_from(">LLL", cursor.map(), 0)
 
         # TODO: figure out whether we should better keep the lock, or maybe
         # add a .keep file instead ?
         if type_id != self.pack_signature:
             raise ParseError("Invalid pack signature: %i" % type_id)
+        self._cursor, self._version, self._size = cursor, version, size
 
     def _iter_objects(self, start_offset, as_stream=True):
         """Handle the actual iteration of objects within this pack"""
-- 
2.43.0


From 65ea58975b1270266b994cf07db60dfdde63ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 44/57] fix: find packs whatever the path of their directory,
 and notice if it can't be read

A path with brackets was taken for a pattern, so that there were no packs at all below it. A directory which
couldn't be listed for a moment, for example for lack of file descriptors, was taken for an empty one
---
 gitdb/db/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 15e8f51..b41b54c 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,7 +22,6 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
-import glob
 
 __all__ = ('PackedDB', )
 
@@ -149,8 +148,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # Those without index are not (or no longer) complete
-        pack_files = {p for p in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
-                      if os.path.isfile(os.path.splitext(p)[0] + ".idx")}
+        names = set(os.listdir(self.root_path()))
+        pack_files = {os.path.join(self.root_path(), name) for name in names
+                      if name.startswith("pack-") and name.endswith(".pack") and name[:-len(".pack")] + ".idx" in names}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From 301bbd88cb704486717b965a4213b49497eac9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 45/57] fix: let the next update of a packed database make up
 for one that failed

An update which failed half way, for example because a file couldn't be opened, had noted the time of the directory
already, so that later ones saw nothing to do and objects in new packs stayed unknown
---
 gitdb/db/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index b41b54c..b23ca89 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -143,7 +143,6 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-        self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
@@ -176,6 +175,8 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # reinitialize prioritiess
         self._sort_entities()
+        # only now, otherwise the next update wouldn't make up for one that failed
+        self._st_mtime = stat.st_mtime
         return True
 
     def entities(self):
-- 
2.43.0


From 764d3ab06475d035505d66826530789061e67238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 46/57] fix: don't use an incomplete list of packs if loading
 it failed

Only the first query raised, all later ones reported the objects in packs which hadn't been loaded as missing
---
 gitdb/db/pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index b23ca89..0d6bb2f 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -50,7 +50,13 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _set_cache_(self, attr):
         if attr == '_entities':
             self._entities = list()
-            self.update_cache(force=True)
+            try:
+                self.update_cache(force=True)
+            except BaseException:
+                # don't take what we have so far for everything
+                del self._entities
+                raise
+            # END handle failure
         # END handle entities initialization
 
     def _sort_entities(self):
-- 
2.43.0


From dea593bedf3695e4ec48717cf7294df22e9a635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 47/57] fix: don't take a GitDB for empty after its databases
 couldn't be set up

Only the first query raised, for example as the directory didn't exist yet. All later ones reported every object as missing
---
 gitdb/db/git.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 79d9ef5..321c9ea 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -46,7 +46,6 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
             self._update_dbs()
         else:
             super()._set_cache_(attr)
-- 
2.43.0


From edf47e8552120254d7d2bb589cd53087543004af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 48/57] fix: raise if the compressed data of an object ends too
 early

Reading a truncated object provided less than its size without any error, and the result of deltas on a truncated
base had zeros where it was missing
---
 gitdb/stream.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index d14d5a9..5acd8f7 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -27,6 +27,7 @@ from gitdb.util import (
 )
 
 from gitdb.const import NULL_BYTE, BYTE_SPACE
+from gitdb.exc import ParseError
 from gitdb.utils.encoding import force_bytes
 
 has_perf_mod = False
@@ -101,7 +102,7 @@ class DecompressMemMapReader(LazyMixin):
         # And for good reason !! This needs to be that high for the header to be read correctly in all cases
         maxb = 8192
         self._s = maxb
-        hdr = self.read(maxb)
+        hdr = self._read(maxb)
         hdrend = hdr.find(NULL_BYTE)
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
@@ -179,12 +180,12 @@ class DecompressMemMapReader(LazyMixin):
             self._br = self._s - mmap.PAGESIZE
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
-                    self.read(mmap.PAGESIZE)
+                    self._read(mmap.PAGESIZE)
                 # END scrub-loop custom zlib
             else:
                 # pass in additional pages, until we have unused data
                 while not self._zip.unused_data and self._cbr != len(self._m):
-                    self.read(mmap.PAGESIZE)
+                    self._read(mmap.PAGESIZE)
                 # END scrub-loop default zlib
             # END handle stream scrubbing
 
@@ -216,6 +217,15 @@ class DecompressMemMapReader(LazyMixin):
         # END skip header
 
     def read(self, size=-1):
+        """:raise ParseError: if the compressed data ends before it delivered our size"""
+        remaining = self._s - self._br
+        data = self._read(size)
+        if len(data) < (remaining if size < 1 else min(size, remaining)):
+            raise ParseError("Compressed data ended after %i of %i bytes" % (self._br, self._s))
+        # END don't pretend to be complete
+        return data
+
+    def _read(self, size=-1):
         if size < 1:
             size = self._s - self._br
         else:
@@ -321,7 +331,7 @@ class DecompressMemMapReader(LazyMixin):
         # stream is depleted. It is only if it has ended, or if there is no more input.
         missing = size - (len(dcompdat) - len(dat))
         if missing > 0 and self._br < self._s and indata and not self._zip.eof:
-            dcompdat += self.read(missing)
+            dcompdat += self._read(missing)
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From c264ccfce056fa8f100d14eabb9f1b4cd80027b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 49/57] fix: refuse headers of loose objects which don't end,
 or have no proper size

Without terminator, the last digit of the size was cut off, so that info reported a wrong size. Negative sizes were accepted
---
 gitdb/fun.py    | 4 +++-
 gitdb/stream.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 5fd5efb..c35dfa8 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -407,7 +407,9 @@ def loose_object_header_info(m):
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
     hdr = decompressobj().decompress(m, decompress_size)
-    type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
+    type_name, size = hdr[:hdr.index(NULL_BYTE)].split(BYTE_SPACE)
+    if not size.isdigit():
+        raise ValueError("Invalid object size: %r" % size)
 
     return type_name, int(size)
 
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 5acd8f7..d5e67bc 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -103,8 +103,10 @@ class DecompressMemMapReader(LazyMixin):
         maxb = 8192
         self._s = maxb
         hdr = self._read(maxb)
-        hdrend = hdr.find(NULL_BYTE)
+        hdrend = hdr.index(NULL_BYTE)
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
+        if not size.isdigit():
+            raise ValueError("Invalid object size: %r" % size)
         size = int(size)
         self._s = size
 
-- 
2.43.0


From 43d2118e8aa2ebb137bca2121d9dbc00b612a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:00 +0000
Subject: [PATCH 50/57] fix: refuse packed objects of the reserved types

Type ids 0 and 5 were reported as objects of an empty type, so an index
which points to the wrong place in a pack made up objects which could even
be copied to other databases.
---
 gitdb/fun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index c35dfa8..dea101b 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -7,6 +7,7 @@ Keeping this code separate from the beginning makes it easier to out-source
 it into c later, if required"""
 
 import zlib
+from gitdb.exc import ParseError
 from gitdb.util import byte_ord
 decompressobj = zlib.decompressobj
 
@@ -419,10 +420,13 @@ def pack_object_header_info(data):
     :return: tuple(type_id, uncompressed_size_in_bytes, byte_offset)
         The type_id should be interpreted according to the ``type_id_to_type_map`` map
         The byte-offset specifies the start of the actual zlib compressed datastream
-    :param m: random-access memory, like a string or memory map"""
+    :param m: random-access memory, like a string or memory map
+    :raise ParseError: if there is no object of a known type"""
     c = byte_ord(data[0])           # first byte
     i = 1                           # next char to read
     type_id = (c >> 4) & 7          # numeric type
+    if not type_id_to_type_map[type_id]:
+        raise ParseError("Invalid type of a packed object: %i" % type_id)
     size = c & 15                   # starting size
     s = 4                           # starting bit-shift size
     while c & 0x80:
-- 
2.43.0


From 220b6577e00134cb8b1772229b3c92165603d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 51/57] fix: copy all of a stream which provides less than
 asked for at a time

A read from a pipe, a socket or a raw file may return less although there is more.
That was taken for the end: encoded objects were stored cut off under their id,
and others couldn't be stored or packed at all.
---
 gitdb/fun.py  | 3 ++-
 gitdb/pack.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index dea101b..60b0782 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -532,7 +532,8 @@ def stream_copy(read, write, size, chunk_size):
         data_len = len(data)
         dbw += data_len
         write(data)
-        if data_len < cs or dbw == size:
+        # streams may provide less than asked for at a time
+        if not data_len or dbw == size:
             break
         # END check for stream end
     # END duplicate data
diff --git a/gitdb/pack.py b/gitdb/pack.py
index d1a33a8..0444600 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -165,7 +165,10 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
     # END initialize crc
 
     while True:
+        # only an empty chunk is the end, streams may provide less than asked for at a time
         chunk = read(chunk_size)
+        if not chunk:
+            break
         br += len(chunk)
         compressed = zstream.compress(chunk)
         bw += len(compressed)
@@ -174,9 +177,6 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
         if want_crc:
             crc = crc32(compressed, crc)
         # END handle crc
-
-        if len(chunk) != chunk_size:
-            break
     # END copy loop
 
     compressed = zstream.flush()
-- 
2.43.0


From ad19a696692737f372c35aec0e9fcffbd272e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 52/57] fix: refuse deltas with a cut off command if python
 runs optimized

The check was an assertion, which python -O drops. Deltas whose last insertion
is cut off resolved to fewer bytes than they declare, without an error.
---
 gitdb/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 60b0782..75ac7ea 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -682,7 +682,8 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
     # END while processing delta data
 
     # yes, lets use the exact same error message that git uses :)
-    assert i == delta_buf_size, "delta replay has gone wild"
+    if i != delta_buf_size:
+        raise ValueError("delta replay has gone wild")
 
 
 def is_equal_canonical_sha(canonical_length, match, sha1):
-- 
2.43.0


From 354a8b645639d703ec8c167c96bfd4f7bb4bd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 53/57] fix: refuse indices of unknown versions if python runs
 optimized

The check was an assertion, which python -O drops, hence an index of any later
version was read as if it was of version 2.
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 0444600..4576012 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -310,8 +310,9 @@ class PackIndexFile(LazyMixin):
             version = (mmap[:4] == self.index_v2_signature and 2) or 1
             if version == 2:
                 version_id = unpack_from(">L", mmap, 4)[0]
-                assert version_id == version, "Unsupported index version: %i" % version_id
-            # END assert version
+                if version_id != version:
+                    raise ParseError("Unsupported index version: %i" % version_id)
+            # END check version
             self._version = version
 
             # SETUP FUNCTIONS
-- 
2.43.0


From cc5e4c3da46b949853972ca0315f4444c05164c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 54/57] fix: refuse to pack objects with a wrong size if python
 runs optimized

The check was an assertion, which python -O drops. Packs were written, and
created, although a stream ended before the announced size.
---
 gitdb/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 4576012..d2d38c3 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1019,7 +1019,9 @@ class PackEntity(LazyMixin):
             zstream = zlib.compressobj(zlib_compression)
             ostream = obj.stream
             br, bw, crc = write_stream_to_pack(ostream.read, pwrite, zstream, base_crc=crc)
-            assert(br == obj.size)
+            if br != obj.size:
+                raise ValueError("Expected %i bytes from the stream of an object, got %i" % (obj.size, br))
+            # END check supply
             if wants_index:
                 index.append(obj.binsha, crc, ofs)
             # END handle index
-- 
2.43.0


From 55d00f2b7f9e758a6ea65b61ca5785591847103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:30 +0000
Subject: [PATCH 55/57] fix: take empty files in file_contents_ro

An empty file can't be mapped: mmap raises ValueError, which was passed on instead of reading the file like after any other failure to map it.
---
 gitdb/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index fc3fbe7..605b314 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -181,7 +181,8 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
                 # python 2.4 issue, 0 wants to be the actual size
                 return mmap.mmap(fd, os.fstat(fd).st_size, access=mmap.ACCESS_READ)
             # END handle python 2.4
-    except OSError:
+    except (OSError, ValueError):
+        # ValueError: empty files can't be mapped
         pass
     # END exception handling
 
-- 
2.43.0


From b7580448ac98ff89899afc368e3acb1886cbccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:30 +0000
Subject: [PATCH 56/57] fix: read files to their end in file_contents_ro

A single read, which may provide less than asked for (always so above 2 GiB), was taken for the contents of files which are not mapped.
---
 gitdb/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 605b314..64c590a 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -187,7 +187,8 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
     # END exception handling
 
     # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # a single read may provide less than everything
+    contents = b''.join(iter(lambda: os.read(fd, max(1, os.fstat(fd).st_size)), b''))
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From ad504bd741733ecbd1a35ab23c6c174ebcb2514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:30 +0000
Subject: [PATCH 57/57] fix: don't ask for nothing in stream_copy

Copying 0 bytes asked the source to read 0 bytes, which gives everything there is on most streams of gitdb and was passed on to the target.
---
 gitdb/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 75ac7ea..438ef09 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -521,7 +521,7 @@ def stream_copy(read, write, size, chunk_size):
     dbw = 0                                             # num data bytes written
 
     # WRITE ALL DATA UP TO SIZE
-    while True:
+    while dbw < size:
         cs = min(chunk_size, size - dbw)
         # NOTE: not all write methods return the amount of written bytes, like
         # mmap.write. Its bad, but we just deal with it ... perhaps its not
@@ -533,7 +533,7 @@ def stream_copy(read, write, size, chunk_size):
         dbw += data_len
         write(data)
         # streams may provide less than asked for at a time
-        if not data_len or dbw == size:
+        if not data_len:
             break
         # END check for stream end
     # END duplicate data
-- 
2.43.0

