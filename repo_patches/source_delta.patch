From c74adcc0b5e8a7263aa315a69f0c494940e71012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/32] fix: SqliteStorage never allocates an oid that is
 already in use

After reopening, the first oid allocated was the highest one stored (and
reopening an empty database failed); after create_from_records() allocation
started at zero.
---
 durus/sqlite_storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..17d62ec 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,14 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return, as an integer, the first OID above all those in the database.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v is None or v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
@@ -259,3 +259,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From 72118051984f3db81004f81f5d98550d87e63a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 02/32] fix: SqliteStorage.gen_oid_record() without a starting
 oid

---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 17d62ec..6006813 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -146,13 +146,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
         for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+            oid = int8_to_str(oid)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From c2f9e180344dbea879d3907c2059cb371dc2a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 03/32] fix: SqliteStorage pack deletes only unreachable
 objects and reports them

A commit served between identifying the dead objects and deleting them could
refer to one of them again.  The objects removed were never reported by sync().
---
 durus/sqlite_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 6006813..4a4b67c 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -237,9 +237,10 @@ class SqliteStorage(Storage):
                 if oid not in alive:
                     dead.add(oid)
             self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # note we cannot yield before the dead objects are gone because
+            # a commit could make one of them reachable again
             self._delete(dead)
+            self.invalid.update(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From 4635466cc739c5e7626d911bd9c16db1e0e92e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 04/32] fix: FileStorage2.begin() discards the records of an
 abandoned commit

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From 2cd8adbea843a57db375919f6c831dedf11d7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 05/32] fix: FileStorage2 reverts a commit that could not be
 written

The incomplete transaction stayed in the file, and made every later one
unreadable.
---
 durus/file_storage2.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..971d2f9 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,11 +148,19 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
-        self.fp.flush()
-        self.fp.fsync()
+        self.fp.seek(0, 2)
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+            self.fp.flush()
+            self.fp.fsync()
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
-- 
2.43.0


From 1d8089ee0f73c26fb7236eaadb0701c616d5e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 06/32] fix: a Shelf transaction is complete or ignored

The placeholder for the length was zero, so what a crash left behind was read
as an empty transaction followed by garbage.  A failure to write the length
was not reverted.
---
 durus/shelf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..b521120 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,10 +195,12 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
         result = []
         index = {}
         try:
+            # Write a placeholder that can not be taken for the length of
+            # a complete transaction.
+            write(self.file, as_bytes('\xff' * 8))
             for name, value in name_value_sequence:
                 new_position = self.file.tell()
                 old_position = self.get_position(name)
@@ -207,15 +209,15 @@ class Shelf (object):
                 write_int8(self.file, len(name) + len(value))
                 write(self.file, name)
                 write(self.file, value)
+            end = self.file.tell()
+            self.file.seek(start)
+            write_int8(self.file, end - start - 8)
+            self.file.seek(end)
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 17a27bbd606882b216b20e27badfe26aa3e50fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 07/32] fix: FileStorage forces a transaction to disk before
 the commit returns

as FileStorage2 always did.
---
 durus/shelf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index b521120..9826520 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -213,6 +213,9 @@ class Shelf (object):
             self.file.seek(start)
             write_int8(self.file, end - start - 8)
             self.file.seek(end)
+            if hasattr(self.file, 'fsync'):
+                self.file.flush()
+                self.file.fsync()
         except:
             # Revert before raising.
             self.file.seek(start)
-- 
2.43.0


From 08b214b0d2de53788b7bff11f8138efa2f11dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 08/32] fix: FileStorage pack reports removed oids above the
 new offset map

---
 durus/file_storage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..81fc3da 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -154,6 +154,13 @@ class FileStorage (Storage):
                 if self.shelf.get_position(oid) is not None:
                     assert shelf.get_position(oid) is None
                     self.invalid.add(oid)
+            # The same for those that are above the new offset map.
+            array_size = shelf.get_offset_map().get_array_size()
+            for oid, position in self.shelf.iterindex():
+                yield position
+                if (str_to_int8(oid) >= array_size and
+                    oid not in self.pack_extra):
+                    self.invalid.add(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
-- 
2.43.0


From 6cd912869bff9fda964ddabdab8400d7e3ce6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 09/32] fix: a blind write that conflicts raises
 WriteConflictError

and not AssertionError.
---
 durus/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..c7bd23e 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -299,11 +299,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From 6f34d35f66c17394d0f761e96695252d88db0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 10/32] fix: loading a ghost that was packed away is a
 ReadConflictError

with the storages that raise a plain KeyError, too.
---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index c7bd23e..e8ac38e 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -187,7 +186,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From a261cdd651bf6fdaa2ecf702425df3d9fd8e0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 11/32] fix: a commit that fails for any reason leaves no trace

Only a conflict detected by the storage was cleaned up.  After other failures
(an object that can not be pickled, an I/O error) new objects looked as if they
had been stored, and a later commit stored references to them, without them.
---
 durus/connection.py | 46 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index e8ac38e..24a9a8c 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -2,7 +2,7 @@
 $URL$
 $Id$
 """
-from durus.error import ConflictError, WriteConflictError, ReadConflictError
+from durus.error import WriteConflictError, ReadConflictError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -260,29 +260,39 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
+            objects_found = []
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        objects_found.extend(writer.objects_found)
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
-                for oid, obj in iteritems(new_objects):
+            except:
+                # The new objects are not in the storage, and the changes
+                # are still to be saved.
+                for obj in objects_found:
+                    oid = obj._p_oid
+                    self.changed.pop(oid, None)
                     obj._p_oid = None
                     del self.cache[oid]
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
+                for obj in self.changed.values():
+                    if obj._p_is_saved():
+                        obj._p_set_status_unsaved()
                 raise
             self.changed.clear()
         self.shrink_cache()
-- 
2.43.0


From ebac8ea333fc349925f76e85adf2c8d5e1410c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 12/32] fix: BTree deletion keeps the tree balanced and the
 counts right

Merging around a deleted item could shrink a minimal sibling, and the counts
left out the items of subtrees that moved.
---
 durus/btree.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..0d69c63 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -238,41 +242,46 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
                     if is_big(lower_sibling):
                         # Case 3a1: Shift an item from lower_sibling.
                         node.items.insert(0, self.items[p - 1])
-                        node._count += 1
+                        moved = 1
                         self.items[p - 1] = lower_sibling.items[-1]
                         del lower_sibling.items[-1]
-                        lower_sibling._count -= 1
                         if not node.is_leaf():
                             node.nodes.insert(0, lower_sibling.nodes[-1])
                             del lower_sibling.nodes[-1]
+                            moved += node.nodes[0]._count
+                        node._count += moved
+                        lower_sibling._count -= moved
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
                         node.items.append(self.items[p])
-                        node._count += 1
+                        moved = 1
                         self.items[p] = upper_sibling.items[0]
                         del upper_sibling.items[0]
-                        upper_sibling._count -= 1
                         if not node.is_leaf():
                             node.nodes.append(upper_sibling.nodes[0])
                             del upper_sibling.nodes[0]
+                            moved += node.nodes[-1]._count
+                        node._count += moved
+                        upper_sibling._count -= moved
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
-- 
2.43.0


From e0c66e49bd7412350fedfb95d3660a04148d212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 13/32] fix: deleting a key that is not in a BTree leaves a
 valid tree

The root could be left without items, so that the tree looked empty and a
later deletion failed.
---
 durus/btree.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 0d69c63..236652c 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -307,12 +307,20 @@ class BNode(PersistentObject):
                     node._p_note_change()
                 assert is_big(node)
                 old_count = node._count
-                node.delete(key)
-                self._count += node._count - old_count
-            if not self.items:
-                # This can happen when self is the root node.
-                self.items = self.nodes[0].items
-                self.nodes = self.nodes[0].nodes
+                try:
+                    node.delete(key)
+                finally:
+                    # Even if there is no such key, nodes may be merged.
+                    self._count += node._count - old_count
+                    self._collapse()
+                return
+            self._collapse()
+
+    def _collapse(self):
+        if not self.items and not self.is_leaf():
+            # This can happen when self is the root node.
+            self.items = self.nodes[0].items
+            self.nodes = self.nodes[0].nodes
 
     def get_count(self):
         """() -> int
-- 
2.43.0


From e82d901c93756490c60695adeafac3e528ec19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 14/32] fix: IntSet.add() always makes room for the number

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..4b61cfa 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(int(n * 1.2) + 1)
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 5188213ea07f0a6e3b06414ed2f3b4fe3c84e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 15/32] fix: DurusKeyError can be formatted

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From 9698ba9f7f8b1b94df8901b62558ce3a495a232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 16/32] fix: an attribute name that has no UTF-8 form raises
 UnicodeEncodeError

and does not crash the interpreter.
---
 durus/_persistent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..6949e68 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -170,6 +170,8 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
+	if (sname == NULL)
+		return NULL;
 	if (load_triggering_name(sname)) {
 		if (!pb_load(self))
 			return NULL;
@@ -189,6 +191,8 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
+	if (sname == NULL)
+		return -1;
 	if (load_triggering_name(sname)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
-- 
2.43.0


From 24dd0542ef24fe5790325db81e199230c5e3171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/32] fix: a malformed commit disconnects the client and not
 the server

The storage server stopped on a commit with inconsistent lengths or with an
oid that the storage rejects.
---
 durus/storage_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..d6b268e 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -283,7 +283,7 @@ class StorageServer (object):
                         try:
                             self.handle(s)
                         except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                            IOError, ValueError):
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
@@ -390,8 +390,12 @@ class StorageServer (object):
         i = 0
         oids = []
         while i < len(tdata):
+            if i + 12 > len(tdata):
+                raise ClientError("malformed commit")
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
+            if rlen < 8 or i + rlen > len(tdata):
+                raise ClientError("malformed commit")
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
-- 
2.43.0


From b1249c794e2de7e23e650e212e17fe710b382a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 18/32] fix: SqliteStorage rolls back a commit that fails

The records stored before the failure became part of the next commit.
---
 durus/sqlite_storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 4a4b67c..0c4fd70 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -121,9 +121,14 @@ class SqliteStorage(Storage):
                     # ensure object and refs are marked alive and not removed
                     self.pack_extra.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            # Revert before raising.
+            self._conn.rollback()
+            raise
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From ca0e21833a726b9475dd17c539d2220a4d92b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 19/32] fix: ObjectDictionary can lose a key set again when its
 old object dies meanwhile

The old object's reference was still in the mapping after the key had been
taken off the dead set, so a garbage collection caused by making the new
reference could mark the new object as dead.
---
 durus/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/connection.py b/durus/connection.py
index 24a9a8c..1c4a586 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -349,8 +349,10 @@ class ObjectDictionary (object):
         return default
 
     def __setitem__(self, key, value):
-        self.dead.discard(key)
+        # The object that had this key before may die at any moment until
+        # its reference is replaced.
         self.mapping[key] = KeyedRef(value, self.callback, key)
+        self.dead.discard(key)
 
     def __delitem__(self, key):
         self.dead.add(key)
-- 
2.43.0


From a8c27e7587354562f23593a5482798c9b12461af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 20/32] fix: ClientStorage.bulk_load() reads every response
 before it raises an error

---
 durus/client_storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..2db1709 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -125,7 +125,17 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        # Read every response, even if there is an error, so that none is
+        # taken for the response to a later request.
+        records = []
+        error = None
+        for oid in oids:
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError) as exc:
+                error = error or exc
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From 05daf02e18da5669cc283b742413aaa6134375d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 21/32] fix: an unexpected error in one client's request does
 not stop the server

---
 durus/storage_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index d6b268e..d47734e 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -282,8 +282,10 @@ class StorageServer (object):
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError, ValueError):
+                        except Exception:
+                            # Whatever is wrong with the request or the
+                            # connection, it is no reason to stop serving
+                            # the other clients.
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
-- 
2.43.0


From e7afb06700c47f992899e55c5e813277dc45b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 22/32] fix: a pack that a storage does not start does not stop
 the server

---
 durus/file_storage2.py  | 2 +-
 durus/sqlite_storage.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 971d2f9..817881d 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -271,7 +271,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(())
         else:
             self.pack_extra = []
             return self._packer()
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 0c4fd70..984f5ba 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -208,7 +208,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return iter([]) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
-- 
2.43.0


From 770c40399aa2eb7b67a534922dc7f22e45268fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:19 +0000
Subject: [PATCH 23/32] fix: call_if_persistent() propagates an error of
 isinstance()

---
 durus/_persistent.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 6949e68..a25cebb 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -425,9 +425,12 @@ call_if_persistent(PyObject *x, PyObject *args)
 	if (!PyArg_UnpackTuple(args, "", 2, 2, &f, &arg)) {
 		return NULL;
 	}
-	if (PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type)) {
+	switch (PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type)) {
+	case -1:
+		return NULL;
+	case 1:
 		return PyObject_CallFunction(f, "O", arg);
- 	} else {
+	default:
 		Py_INCREF(Py_None);
 		return Py_None;
 	}
-- 
2.43.0


From c616aa189113d63cd0124645db16cb7fb6daa8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 24/32] fix: attribute names with a null character are not
 taken for exempt names

---
 durus/_persistent.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index a25cebb..ebbb4db 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -9,11 +9,12 @@ $Id$
 #if PY_VERSION_HEX < 0x03000000
 	#define Integer_FromLong PyInt_FromLong
 	#define AttributeName_Check PyString_Check
-	#define AttributeName_AsString PyString_AS_STRING
+	#define AttributeName_AsString(name, size) \
+		(*(size) = PyString_GET_SIZE(name), PyString_AS_STRING(name))
 #else
 	#define Integer_FromLong PyLong_FromLong
 	#define AttributeName_Check PyUnicode_Check
-	#define AttributeName_AsString PyUnicode_AsUTF8
+	#define AttributeName_AsString PyUnicode_AsUTF8AndSize
 #endif
 
 /* these constants must match the ones in persistent.py */
@@ -92,11 +93,13 @@ pb_clear(PersistentBaseObject *self)
 
 /* Returns true if accessing 'name' requires that the object be loaded.
  * Don't trigger a load for any attribute starting with "_p_".	The names
- * "__repr__", "__class__", and "__setstate__" are also exempt. */
+ * "__repr__", "__class__", and "__setstate__" are also exempt.
+ * The name may contain null characters. */
 
 static int
-load_triggering_name(const char *s)
+load_triggering_name(const char *s, Py_ssize_t size)
 {
+	const char *end = s + size;
 	if (*s++ != '_')
 		return 1;
 	if (*s == 'p') {
@@ -108,6 +111,8 @@ load_triggering_name(const char *s)
 	}
 	else if (*s == '_') {
 		s++;
+		if (strlen(s) != (size_t)(end - s))
+			return 1;
 		switch (*s) {
 		case 'r':
 			return strcmp(s, "repr__");
@@ -164,15 +169,16 @@ static PyObject *
 pb_getattro(PersistentBaseObject *self, PyObject *name)
 {
 	const char *sname = NULL;
+	Py_ssize_t size = 0;
 	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
+	    sname = AttributeName_AsString(name, &size);
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
 	if (sname == NULL)
 		return NULL;
-	if (load_triggering_name(sname)) {
+	if (load_triggering_name(sname, size)) {
 		if (!pb_load(self))
 			return NULL;
 		if (!pb_note_access(self))
@@ -185,15 +191,16 @@ static int
 pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 {
 	const char *sname = NULL;
+	Py_ssize_t size = 0;
 	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
+	    sname = AttributeName_AsString(name, &size);
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
 	if (sname == NULL)
 		return -1;
-	if (load_triggering_name(sname)) {
+	if (load_triggering_name(sname, size)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
 				return -1;
-- 
2.43.0


From a340bd71392dca707c426f9c308c3621d4e44fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 25/32] fix: db_renumber keeps references to the root

---
 bin/db_renumber.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 16625cf..c0f5865 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -11,9 +11,9 @@ from tempfile import TemporaryFile
 import sys
 
 if sys.version < "3":
-    from cPickle import dump, load
+    from cPickle import Pickler, Unpickler
 else:
-    from pickle import dump, load
+    from pickle import Pickler, Unpickler
 
 def usage():
     print("%s <old-file-storage> <new-file-storage>" % sys.argv[0])
@@ -29,13 +29,20 @@ def main(old_file, new_file):
     connection = Connection(sys.argv[1])
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
-    dump(connection.get_root().__getstate__(), tmpfile, 2)
-    connection = None
+    root = connection.get_root()
+    pickler = Pickler(tmpfile, 2)
+    # References to the root must become references to the new root.
+    pickler.persistent_id = lambda x: x is root and 'root' or None
+    pickler.dump(root.__getstate__())
+    connection = root = pickler = None
     tmpfile.seek(0)
     connection2 = Connection(sys.argv[2])
     print("unpickling")
-    connection2.get_root().__setstate__(load(tmpfile))
-    connection2.get_root()._p_note_change()
+    new_root = connection2.get_root()
+    unpickler = Unpickler(tmpfile)
+    unpickler.persistent_load = lambda x: new_root
+    new_root.__setstate__(unpickler.load())
+    new_root._p_note_change()
     print("commit to " + new_file)
     connection2.commit()
     print("pack")
-- 
2.43.0


From 7bf41c36210115078a759ec2f0a707bacd6c892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 26/32] fix: an inherited abstract socket can be formatted

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index d47734e..258b8f9 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -214,9 +214,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes) and as_bytes('\0') in self.name:
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(as_bytes('\0'), as_bytes('@'))
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From e7e88fc3c44c3b3616137359959b1c23b38b3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 27/32] fix: a server that cannot take its address restores the
 umask

---
 durus/storage_server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 258b8f9..8613cca 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -168,6 +168,13 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
     def bind_socket(self, s):
         if self.umask is not None:
             old_umask = umask(self.umask)
+        try:
+            self._bind_socket(s)
+        finally:
+            if self.umask is not None:
+                umask(old_umask)
+
+    def _bind_socket(self, s):
         try:
             s.bind(self.filename)
         except socket.error:
@@ -200,8 +207,6 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 gid = getgrnam(self.group).gr_gid
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From ecde4ecab2d238d38d0fa10d574c74b872a6e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 28/32] fix: FileStorage2.create_from_records() updates the
 index and the next oid

---
 durus/file_storage2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 817881d..747eaa8 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -348,3 +348,7 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        self.oid = -1
+        for oid in self.index:
+            self.oid = max(self.oid, str_to_int8(oid))
-- 
2.43.0


From a24e76bac725d7a6522945e82bdae961aeb1a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 29/32] fix: FileStorage2 in a temporary file does not stop a
 server with gcbytes

---
 durus/file_storage2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 747eaa8..3fe5785 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -268,10 +268,11 @@ class FileStorage2(Storage):
         called, up to _PACK_INCREMENT records will be packed.  Note that the
         generator must be exhausted before calling get_packer() again.
         """
-        assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
-        if self.pack_extra is not None or self.pending_records:
-            return iter(())
+        if (self.pack_extra is not None or
+            self.pending_records or
+            self.fp.is_temporary()):
+            return iter(()) # Don't pack.
         else:
             self.pack_extra = []
             return self._packer()
-- 
2.43.0


From 9e74c4400ef6297e3adb3b57d5a175720bec6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:29 +0000
Subject: [PATCH 30/32] fix: the root can be made although its identifier was
 given out before

---
 durus/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 1c4a586..3dbbff7 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -63,8 +63,9 @@ class Connection (ConnectionBase):
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
         if self.root is None:
-            new_oid = self.new_oid()
-            assert ROOT_OID == new_oid
+            # Usually this is ROOT_OID.  If it is not, ROOT_OID was given out
+            # before, and nothing was stored with it.
+            self.new_oid()
             self.root = self.get_cache().get_instance(
                 ROOT_OID, root_class or PersistentDict, self)
             self.root._p_set_status_saved()
-- 
2.43.0


From 020e17d860f7fda95153144005548ee87c001d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:29 +0000
Subject: [PATCH 31/32] fix: the client's startup file is executed

---
 durus/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/__main__.py b/durus/__main__.py
index 509b16d..90e36c6 100644
--- a/durus/__main__.py
+++ b/durus/__main__.py
@@ -62,7 +62,9 @@ def interactive_client(file, address, cache_size, readonly, repair,
         vars(console_module), os.path.expanduser("~/.durushistory"))
     console = InteractiveConsole(vars(console_module))
     if startup:
-        console.runsource('execfile("%s")' % os.path.expanduser(startup))
+        path = os.path.expanduser(startup)
+        console.runsource(
+            'exec(compile(open(%r).read(), %r, "exec"))' % (path, path))
     help = ('    connection -> the Connection\n'
             '    root       -> the root instance')
     console.interact('Durus %s\n%s' % (description, help))
-- 
2.43.0


From 8870f6cc800dc070b7e2a158a8991d55018c502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:29 +0000
Subject: [PATCH 32/32] fix: a Shelf whose last record is incomplete is not
 taken for complete

---
 durus/shelf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index 9826520..0b7b82b 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -303,6 +303,10 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        file.seek(0, 2)
+        if file.tell() < transaction_end:
+            raise ShortRead
+        file.seek(transaction_start + 8)
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
-- 
2.43.0

