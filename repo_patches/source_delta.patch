From 9037851d305b5973798154248d6e6b1282e0a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 01/53] fix: do not release name when removing non-existing
 extended attribute

removexattr() decreased the reference count of the name before checking that
the inode has an attribute with this name. If the name was in use elsewhere
(e.g. as the name of a directory entry), this resulted in a wrong reference
count or in the name being deleted, making the directory entry disappear.
---
 src/s3ql/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..1b6709f 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -364,7 +364,7 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         try:
-            name_id = self._del_name(name)
+            name_id = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
             raise FUSEError(pyfuse3.ENOATTR)
 
@@ -373,6 +373,7 @@ class Operations(pyfuse3.Operations):
         )
         if changes == 0:
             raise FUSEError(pyfuse3.ENOATTR)
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 47c36251c0ae633d65a77558b7a8334529ebf156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 02/53] fix: do not increase name refcount when overwriting
 extended attribute

setxattr() increased the reference count of the attribute name even if the
inode already had an attribute with this name.
---
 src/s3ql/fs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 1b6709f..468b905 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,10 +351,16 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
-            self.db.execute(
-                'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+            changes = self.db.execute(
+                'UPDATE ext_attributes SET value=? WHERE inode=? '
+                'AND name_id=(SELECT id FROM names WHERE name=?)',
+                (value, id_, name),
             )
+            if changes == 0:
+                self.db.execute(
+                    'INSERT INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
+                    (id_, self._add_name(name), value),
+                )
             self.inodes[id_].ctime_ns = time_ns()
 
     async def removexattr(self, id_: InodeT, name: bytes, ctx: RequestContext) -> None:
-- 
2.43.0


From 389c45d3a9cfaf299a377fd258c61398d8b7c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 03/53] fix: handle missing object when truncating a file

If the backend has lost the block that is being truncated, return EIO and
switch to failsafe mode (as for all other operations) instead of letting the
exception escape from the request handler.
---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 468b905..22bae6d 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1006,7 +1006,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From 9fac114b25bf2f68afec82bf33577a7b497a9d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 04/53] fix: release lookup count when unlink, rmdir, rename or
 rmtree fail

These handlers look up the affected inodes (which increases their lookup
count), but did not give back the reference when the operation failed (e.g.
with ENOTEMPTY). The inode was then treated as open until the file system was
unmounted, and never purged before.
---
 src/s3ql/fs.py | 73 +++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 22bae6d..0d23146 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -441,8 +441,17 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
-        conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
+        try:
+            await self._remove_tree(id_p0, name0, id0)
+        finally:
+            await self.forget([(id0, 1)])
+        log.debug('finished')
+
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        '''Remove entry *name0* (with inode *id0*) of *id_p0* and everything below it'''
+
+        conn = self.db
         queue = [id0]  # Directories that we still need to delete
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -505,9 +514,6 @@ class Operations(pyfuse3.Operations):
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
         await self._remove(id_p0, name0, id0, force=True)
 
-        await self.forget([(id0, 1)])
-        log.debug('finished')
-
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
@@ -650,13 +656,15 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -664,16 +672,18 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -791,24 +801,27 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
-        inode_old = self._lookup(id_p_old, name_old, ctx)
+        id_old = self._lookup(id_p_old, name_old, ctx).id
+        looked_up = [(id_old, 1)]
 
         try:
-            inode_new = self._lookup(id_p_new, name_new, ctx)
-        except FUSEError as exc:
-            if exc.errno != errno.ENOENT:
-                raise
+            try:
+                id_new = self._lookup(id_p_new, name_new, ctx).id
+            except FUSEError as exc:
+                if exc.errno != errno.ENOENT:
+                    raise
+                else:
+                    target_exists = False
             else:
-                target_exists = False
-        else:
-            target_exists = True
+                looked_up.append((id_new, 1))
+                target_exists = True
 
-        if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
-        else:
-            self._rename(id_p_old, name_old, id_p_new, name_new)
-            await self.forget([(inode_old.id, 1)])
+            if target_exists:
+                await self._replace(id_p_old, name_old, id_p_new, name_new, id_old, id_new)
+            else:
+                self._rename(id_p_old, name_old, id_p_new, name_new)
+        finally:
+            await self.forget(looked_up)
 
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
-- 
2.43.0


From 821f3a4f15c071be0b44caf913bb22cccd94ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 05/53] fix: flush all dirty blocks when replicating a tree

copy_tree() flushed only inodes that were currently referenced by the kernel.
However, dirty blocks stay in the cache when the kernel forgets an inode, so
the copy of such a file was missing data. Furthermore, the flush was done while
iterating over an active database query, giving control to other tasks.
---
 src/s3ql/fs.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 0d23146..baaea05 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -556,6 +556,15 @@ class Operations(pyfuse3.Operations):
                 (src_id, target_id, off) = queue.pop()
                 # log.debug('Processing directory (%d, %d, %d)', src_id, target_id, off)
 
+                # Make sure that all blocks are in the database. This has to be done before starting
+                # the query below, because we must not yield while there is an active DB query. Note
+                # that an inode may have dirty blocks even if it is no longer in `self.open_inodes`.
+                for id_ in {el.inode for el in self.cache.cache.values()}:
+                    if db.has_val(
+                        'SELECT 1 FROM contents WHERE inode=? AND parent_inode=?', (id_, src_id)
+                    ):
+                        await self.cache.start_flush(id_)
+
                 with db.query(
                     'SELECT name_id, inode FROM contents WHERE parent_inode=? '
                     'AND name_id > ? ORDER BY name_id',
@@ -564,10 +573,6 @@ class Operations(pyfuse3.Operations):
                     for row in res:
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
-                        # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
-                            await self.cache.start_flush(id_)
-
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
                             inode_new = make_inode(
-- 
2.43.0


From c901fe5e19fc68d4b7b4f97fa227e86368a8963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 06/53] fix: wait for blocks being uploaded in start_flush()

start_flush() promises that all dirty blocks have been registered in the
database when it returns, but it skipped blocks for which another task had
started the upload without having finished computing the hash.
---
 src/s3ql/block_cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..663b3bd 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -861,6 +861,11 @@ class BlockCache:
         for el in self.cache.mutable_values():
             if inode is not None and el.inode != inode:
                 continue
+            while el.in_transit:
+                # The block may still be waiting to be hashed, and thus not yet be registered in
+                # the database. The lock is held until the upload is complete.
+                async with self.block_lock(el.key):
+                    pass
             await self.upload_if_dirty(el)
 
     async def flush(self) -> None:
-- 
2.43.0


From 0c00757d93d8e80b329d1830195666a776220ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 07/53] fix: serialize batched transactions

Copying, locking and removing trees run in explicit transactions and give
control to other tasks while the transaction is open. When a second such request
was received in the meantime, it failed with an SQLError ("cannot start a
transaction within a transaction").
---
 src/s3ql/database.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..f1e6e8b 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -193,6 +193,9 @@ class Connection:
         # Set to a trio.Event while inhibit_writes is active, None otherwise.
         self._inhibit_writes_event: trio.Event | None = None
 
+        # Held while a `BatchedTransactionManager` is active
+        self._batch_lock = trio.Lock()
+
         cur = self.conn.cursor()
 
         # We initialize in NORMAL locking mode before entering WAL mode, then switch to
@@ -612,7 +615,13 @@ class BatchedTransactionManager:
         self.batch_size = 100
 
     async def __aenter__(self) -> BatchedTransactionManager:
-        await self.start_batch()
+        # There can be only one transaction at a time, so wait for other tasks to finish theirs.
+        await self.conn._batch_lock.acquire()
+        try:
+            await self.start_batch()
+        except:
+            self.conn._batch_lock.release()
+            raise
         return self
 
     async def __aexit__(
@@ -621,9 +630,12 @@ class BatchedTransactionManager:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if self.in_tx:
-            self.conn.execute('COMMIT')
-            self.in_tx = False
+        try:
+            if self.in_tx:
+                self.conn.execute('COMMIT')
+                self.in_tx = False
+        finally:
+            self.conn._batch_lock.release()
 
     async def start_batch(self) -> None:
         self.stamp = time.time()
-- 
2.43.0


From 48c5c33f0a3402fba3b94e6b8bfd7cac30b189ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 08/53] fix: report every malformed literal as ValueError

ast.literal_eval() raises TypeError for unhashable dictionary keys or set
elements, and MemoryError or RecursionError for too deeply nested
expressions. A malformed control request thus terminated the file system.
---
 src/s3ql/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..6501950 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -292,7 +292,7 @@ def parse_literal(buf: bytes, type_spec: type[T] | NewType[T]) -> T:
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     if type(obj) is _get_actual_type(type_spec):
@@ -314,7 +314,7 @@ def parse_literal_tuple(
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     actual_types = [_get_actual_type(t) for t in type_spec]
-- 
2.43.0


From d4737561c57ca6d0b6c3dd3f96215740a793f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 09/53] fix: raise ThawError for everything that is not a
 serialized mapping

---
 src/s3ql/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 6501950..6066d25 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -341,7 +341,10 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
+        raise ThawError()
+
+    if not isinstance(d, dict):
         raise ThawError()
 
     # Decode bytes values
-- 
2.43.0


From c9879c945d77525b35d201e29c5c7862df9d3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 10/53] fix: handle non-existing inodes in lock and rmtree
 requests

---
 src/s3ql/fs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index baaea05..c8af130 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -391,7 +391,12 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d', id0)
         queue = [(id0, -1)]
-        self.inodes[id0].locked = True
+
+        # The id comes from setxattr, so the inode may have been deleted
+        try:
+            self.inodes[id0].locked = True
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
         conn = self.db
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -438,8 +443,12 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %s', id_p0, name0)
 
-        if self.inodes[id_p0].locked:
-            raise FUSEError(errno.EPERM)
+        # The id comes from setxattr, so the inode may have been deleted
+        try:
+            if self.inodes[id_p0].locked:
+                raise FUSEError(errno.EPERM)
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
 
         id0 = self._lookup(id_p0, name0, ctx=None).id
         try:
-- 
2.43.0


From 47ea5d1149fde7f6a8c6a214fe80d4e149eb1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 11/53] fix: release block locks even when the task has been
 cancelled

MultiLock.release() waits for the condition variable, so in a cancelled task it
raised Cancelled and left the lock held for ever.
---
 src/s3ql/multi_lock.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..d0f753c 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,11 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # The lock has to be released even if the current task has been cancelled.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From 6b56b490431ee700dc4d309290dafd26381229ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 12/53] fix: do not de-duplicate against objects that could not
 be handed over for upload

When the task was cancelled while waiting for an upload worker, the new object
stayed in the metadata with its hash. A later upload of the same block then
found this object, and dropped the block although its data was never stored.
Also wake up tasks waiting for the upload.
---
 src/s3ql/block_cache.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 663b3bd..b29d93b 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -519,11 +519,12 @@ class BlockCache:
         except:
             if set_in_transit:
                 self._unmark_in_transit(el)
-            await self.block_lock.release(el.key, noerror=True)
             if upload_registered:
-                # Not clear what we should do here.. someone might be waiting on this,
-                # but setting it would have the wrong semantics.
-                self.in_flight_uploads.pop(obj_id, None)
+                # Same situation as with a failed upload (cf. `_do_upload`): the object will never
+                # exist in the backend, so we must not de-duplicate against it.
+                self.db.execute('UPDATE objects SET hash=NULL WHERE id=?', (obj_id,))
+                self.in_flight_uploads.pop(obj_id).set()
+            await self.block_lock.release(el.key, noerror=True)
             raise
 
         if old_obj_id:
-- 
2.43.0


From 38868a6d4053d259b991a48f38f3d6f5ea88c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 13/53] fix: do not modify the database before marking the file
 system as mounted

Creating or dropping the NFS index changed the local database while the sequence number was still that of the
remote metadata. If mounting then failed, the changed blocks were never uploaded but the next mount still used the
local copy, so that the next upload produced inconsistent remote metadata.
---
 src/s3ql/mount.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..9f8f90e 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -287,14 +287,6 @@ async def mount(
                 avail_cache / 1024,
             )
 
-    if nfs:
-        # NFS may try to look up '..', so we have to speed up this kind of query
-        log.info('Creating NFS indices...')
-        db.execute('CREATE INDEX IF NOT EXISTS ix_contents_inode ON contents(inode)')
-
-    else:
-        db.execute('DROP INDEX IF EXISTS ix_contents_inode')
-
     metadata_upload_task = MetadataUploadTask(
         param,
         backend,
@@ -367,6 +359,15 @@ async def mount(
 
         await upload_params(backend, param)
 
+        # This modifies the database, so the sequence number must have been increased before.
+        if nfs:
+            # NFS may try to look up '..', so we have to speed up this kind of query
+            log.info('Creating NFS indices...')
+            db.execute('CREATE INDEX IF NOT EXISTS ix_contents_inode ON contents(inode)')
+
+        else:
+            db.execute('DROP INDEX IF EXISTS ix_contents_inode')
+
         nursery.start_soon(metadata_upload_task.run, name='metadata-upload-task')
         cm.callback(metadata_upload_task.stop)
 
-- 
2.43.0


From 03d428d6d24e76f55ac650bfea5d15d3fde4b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 14/53] fix: set local cache aside when restoring a metadata
 backup

Otherwise the next mount uses cached blocks from newer metadata for whatever files have the same inodes in the
restored metadata.
---
 src/s3ql/adm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..bce113a 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -9,6 +9,7 @@ This work can be distributed under the terms of the GNU GPLv3.
 from __future__ import annotations
 
 import dataclasses
+import itertools
 import logging
 import os
 import re
@@ -560,6 +561,16 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # Locally cached blocks belong to the current metadata and must not be combined with the backup.
+    if os.path.exists(cachepath + '-cache'):
+        bak_name = next(
+            name
+            for name in ('%s-cache.bak%d' % (cachepath, i) for i in itertools.count())
+            if not os.path.exists(name)
+        )
+        log.warning('Renaming outdated cache directory %s-cache to %s', cachepath, bak_name)
+        os.rename(cachepath + '-cache', bak_name)
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From 1ea688e384b10bb845a7c548fc6f7e39e6889b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 15/53] fix: invalidate local parameters while restoring a
 metadata backup

If the download of the backup is interrupted, the parameters of the current metadata would otherwise still
claim that the partially downloaded database is up to date.
---
 src/s3ql/adm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index bce113a..5b35d09 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -571,6 +571,10 @@ async def restore_metadata(
         log.warning('Renaming outdated cache directory %s-cache to %s', cachepath, bak_name)
         os.rename(cachepath + '-cache', bak_name)
 
+    # The local copy is invalid until the download has completed and the new parameters have been written
+    if os.path.exists(cachepath + '.params'):
+        os.unlink(cachepath + '.params')
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From 2b06cf5ccb293c14220d70a22d3628f5db154a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 16/53] fix: recover from interrupted update of the remote
 parameters

When unmounting was interrupted after the local parameters had been marked clean
but before the remote ones were updated, mount.s3ql failed with an AssertionError
and fsck.s3ql considered the file system clean. fsck.s3ql also never noticed that
remote metadata was outdated, because it compared the local parameters with
themselves.
---
 src/s3ql/fsck.py  | 4 +++-
 src/s3ql/mount.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..61dcdb1 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1317,12 +1317,14 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        remote_param = param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
+        remote_outdated = local_param != remote_param
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        if remote_outdated:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 9f8f90e..187da36 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -584,10 +584,11 @@ async def get_metadata(
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
-        if local_param.seq_no > param.seq_no:
+        # With equal sequence numbers, the parameters differ if unmounting was interrupted before the
+        # final update of the remote parameters.
+        if local_param != param:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From d5bd794744cecaef9aabde7827bb606619a6f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 17/53] fix: remove stale write-ahead log before downloading
 metadata

A write-ahead log left behind by a crash was applied to the metadata that was later downloaded to the same path.
---
 src/s3ql/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index f1e6e8b..41a636c 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -940,6 +940,12 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # A write-ahead log that was left behind by a crash belongs to the previous contents of the
+        # file. SQLite must not apply it to the downloaded database.
+        for suffix in ('-wal', '-shm'):
+            with contextlib.suppress(FileNotFoundError):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From 1fcea73f75bd3c51ae4666f3e032fd8bf71fd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 18/53] fix: restore names of extended attributes as bytes

Also, do not change the row id of the attribute that is renamed when the first
candidate name is already in use.
---
 src/s3ql/fsck.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 61dcdb1..6bd236d 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -513,8 +513,8 @@ class Fsck:
                     orig_name_id,
                 )
 
-            while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+            for i in itertools.count(rowid):
+                new_name_id = self._add_name(b'lost+found_%d' % i)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -523,7 +523,6 @@ class Fsck:
                     )
                     break
                 self._del_name(new_name_id)
-                rowid += 1
 
     def check_ext_attributes_inode(self) -> None:
         """Check ext_attributes.inode"""
-- 
2.43.0


From 87332fc48ac94355e966773726ca8fae0c310a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 19/53] fix: check blocks of vanished inodes before object
 reference counts

Otherwise objects that were only used by these blocks were left behind without
reference, and reported by the next check.
---
 src/s3ql/fsck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 6bd236d..bdbc003 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -152,6 +152,9 @@ class Fsck:
             self.check_contents_inode()
             self.check_contents_parent_inode()
 
+            # Must run before check_objects_refcount(), which removes objects that are no longer used
+            self.check_inode_blocks_inode()
+
             self.check_objects_temp()
             self.check_objects_hash()
             await self.check_objects_refcount()
@@ -160,7 +163,6 @@ class Fsck:
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 3f5a7dcace7e003876a53940633d8ebd808b8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 20/53] fix: upload cached blocks again if their upload was
 interrupted

If the mount process crashed (or a previous check was interrupted) while a block
was being uploaded, the database already contains the object with its hash. Such
an object must not be taken for the stored block, or the only copy of the data
(in the cache) is deleted.
---
 src/s3ql/fsck.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index bdbc003..bbd2dd0 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -272,7 +272,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -283,11 +283,13 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif phys_size == -1:
+                    log.debug('Upload of object %d did not complete, treating as dirty', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -297,23 +299,27 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
+                phys_size = -1
                 obj_id = self.conn.rowid(
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
+            # If there is an object with the same hash, but its upload has not completed (because the
+            # mount process or a previous check was interrupted), it may not exist in the backend.
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
-- 
2.43.0


From 40bc8586863c73f3ed752aaf27f67c2025761856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 21/53] fix: gs: restart a repeated download at the original
 position

---
 src/s3ql/backends/gs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..5c8ee51 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -446,6 +446,8 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                # A previous attempt may have been interrupted half-way.
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From 7aab2c0638a09de13caff4a76eb05d1fb5c177b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 22/53] fix: gs: retry when the server asks to slow down (429)

---
 src/s3ql/backends/gs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 5c8ee51..8eec578 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-- 
2.43.0


From 3b5e698dcde6cc15786f6ff5b641d4109cdeea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 23/53] fix: gs: do not discard a fresh access token because an
 old one was rejected

---
 src/s3ql/backends/gs.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 8eec578..4318795 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -87,9 +87,13 @@ class RequestError(Exception):
 
 class AccessTokenExpired(Exception):
     '''
-    Raised if the server rejected the access token as expired.
+    Raised if the server rejected the access token *bearer* as expired.
     '''
 
+    def __init__(self, bearer: str) -> None:
+        super().__init__()
+        self.bearer = bearer
+
 
 @dataclass(slots=True)
 class _Token:
@@ -327,8 +331,11 @@ class AsyncBackend(AsyncBackendBase):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-            # Concurrent failures may race to remove the same entry.
-            self._tokens.pop(self.refresh_token, None)
+            # A concurrent task may already have replaced the rejected token, in
+            # which case the new one must not be discarded.
+            token = self._tokens.get(self.refresh_token)
+            if token is not None and token.bearer == exc.bearer:
+                del self._tokens[self.refresh_token]
             return True
 
         # Not clear at all what is happening here, but in doubt we retry
@@ -653,14 +660,15 @@ class AsyncBackend(AsyncBackendBase):
             s = urllib.parse.urlencode(query_string, doseq=True)
             path += '?%s' % s
 
-        headers['Authorization'] = 'Bearer ' + await self._ensure_token()
+        bearer = await self._ensure_token()
+        headers['Authorization'] = 'Bearer ' + bearer
         resp = await conn.send_request(method, path, headers=headers, body=body)
 
         if 200 <= resp.status <= 299:
             return resp
         if resp.status == 401:
             await conn.discard()
-            raise AccessTokenExpired()
+            raise AccessTokenExpired(bearer)
         raise _parse_error_response(resp, await conn.readall())
 
 
-- 
2.43.0


From 76f481924cbab93fc4b9ad54f17f12cd76eff7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 24/53] fix: s3, b2: retry temporary failures when discovering
 the region

---
 src/s3ql/backends/b2ng.py | 3 ++-
 src/s3ql/backends/s3.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index 26e8951..ab3fa5e 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -20,7 +20,7 @@ from s3ql.types import BasicMappingT
 
 from ..logging import QuietError
 from . import s3c4
-from .common import AuthenticationError, AuthorizationError
+from .common import AuthenticationError, AuthorizationError, retry
 from .s3c import HTTPError
 
 log = logging.getLogger(__name__)
@@ -102,6 +102,7 @@ class AsyncBackend(s3c4.AsyncBackend):
         port = 443 if ssl_context else 80
         return (hostname, port, bucket_name, prefix)
 
+    @retry
     async def _discover_region(self) -> None:
         '''Resolve the bucket's region via Backblaze's native authorize endpoint.
 
diff --git a/src/s3ql/backends/s3.py b/src/s3ql/backends/s3.py
index 4adb44d..c2d012d 100644
--- a/src/s3ql/backends/s3.py
+++ b/src/s3ql/backends/s3.py
@@ -17,6 +17,7 @@ from s3ql.http import CaseInsensitiveDict, HTTPConnection
 
 from ..logging import QuietError
 from . import s3c4
+from .common import retry
 
 log = logging.getLogger(__name__)
 
@@ -89,6 +90,7 @@ class AsyncBackend(s3c4.AsyncBackend):
 
         return self
 
+    @retry
     async def _discover_region(self) -> None:
         '''Probe the configured endpoint; retarget if redirected, error on wrong region.
 
-- 
2.43.0


From 47c6719b8798c7bf35f5aeaa08852e33e89d4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 25/53] fix: b2: use the configured proxy when discovering the
 region

---
 src/s3ql/backends/b2ng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index ab3fa5e..316a8f7 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -118,7 +118,9 @@ class AsyncBackend(s3c4.AsyncBackend):
         auth = 'Basic ' + base64.b64encode(creds.encode('utf-8')).decode('ascii')
         headers = CaseInsensitiveDict({'Authorization': auth})
 
-        async with HTTPConnection('api.backblazeb2.com', 443, ssl_context=self.ssl_context) as conn:
+        async with HTTPConnection(
+            'api.backblazeb2.com', 443, proxy=self.proxy, ssl_context=self.ssl_context
+        ) as conn:
             resp = await conn.send_request('GET', '/b2api/v4/b2_authorize_account', headers=headers)
             body = await conn.readall()
 
-- 
2.43.0


From 41028ce6ff53724529e2cb9392bb912de8f6317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 26/53] fix: s3c4: sign the Host header that is actually sent

---
 src/s3ql/backends/s3c4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..dc7a8b8 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -169,8 +169,9 @@ class AsyncBackend(s3c.AsyncBackend):
         ymd = time.strftime('%Y%m%d', now)
         ymdhms = time.strftime('%Y%m%dT%H%M%SZ', now)
 
-        # add non-standard port to host header, needed for correct signature
-        if self.port != 443:
+        # add non-standard port to host header, needed for correct signature. This has to
+        # match what `HTTPConnection.send_request` is going to send.
+        if self.port != (443 if self.ssl_context else 80):
             headers['host'] = '%s:%s' % (self.hostname, self.port)
 
         headers['x-amz-date'] = ymdhms
-- 
2.43.0


From d167c5bff464c4344b03fe7b71601ada2aab426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 27/53] fix: local: raise NoSuchObject when sizing a missing
 object

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..6b2c7f2 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -116,7 +116,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From 2048ddd22b258b77acf1f5871d3124a8634b5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 28/53] fix: s3c4: keep track of what has been deleted by a
 bulk delete

---
 src/s3ql/backends/s3c4.py | 43 +++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index dc7a8b8..feb6e9c 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -14,8 +14,6 @@ import urllib.parse
 from typing import Literal, overload
 from xml.sax.saxutils import escape as xml_escape
 
-from more_itertools import chunked
-
 from s3ql.http import CaseInsensitiveDict
 
 from . import s3c
@@ -88,15 +86,15 @@ class AsyncBackend(s3c.AsyncBackend):
     async def delete_multi(self, keys: list[str], *, log_progress: bool = False) -> None:
         log.debug('started with %s', keys)
         total = len(keys)
-        failures: list[str] = []
-        processed = 0
-        for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+        while keys:
+            batch = keys[:MAX_KEYS]
+            try:
+                await self._delete_multi(batch)
+            finally:
+                # Whatever happened, only keep the keys that have not been deleted.
+                keys[:MAX_KEYS] = batch
             if log_progress:
-                log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
+                log_delete_progress(total - len(keys), total)
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
@@ -143,15 +141,24 @@ class AsyncBackend(s3c.AsyncBackend):
                             errtag.findtext(ns_p + 'Code'),
                         )
 
-                errcode = error_tags[0].findtext(ns_p + 'Code')
-                errmsg = error_tags[0].findtext(ns_p + 'Message')
-                errkey_text = error_tags[0].findtext(ns_p + 'Key')
-                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+                # Attempts to delete non-existing objects silently succeed
+                failed_tags = []
+                for tag in error_tags:
+                    fullkey = tag.findtext(ns_p + 'Key')
+                    if tag.findtext(ns_p + 'Code') != 'NoSuchKey':
+                        failed_tags.append(tag)
+                    elif fullkey and fullkey[offset:] in keys:
+                        keys.remove(fullkey[offset:])
 
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
-                    raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
+                if not failed_tags:
+                    del keys[:]
+                    return
+
+                errcode = failed_tags[0].findtext(ns_p + 'Code')
+                errmsg = failed_tags[0].findtext(ns_p + 'Message')
+                errkey_text = failed_tags[0].findtext(ns_p + 'Key')
+                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+                raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
                 await conn.discard()
-- 
2.43.0


From 649a3abd6610ce45c4c7bc4322341b2775133b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 29/53] fix: swift: do not assume that an aborted bulk delete
 removed anything

---
 src/s3ql/backends/swift.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..3309e7b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -731,9 +731,13 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+        processed = (
+            resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(failed_keys)
+        )
+        if processed == len(keys):
+            keys[:] = failed_keys
+        # Otherwise the server gave up half-way (or before it even started) and we
+        # do not know which of the other objects still exist.
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
-- 
2.43.0


From 4321c6dbc2ac710d855aa40e0f83ead59228c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 30/53] fix: local: remove temporary file if an upload fails

---
 src/s3ql/backends/local.py | 40 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 6b2c7f2..13ab542 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -175,23 +175,29 @@ class AsyncBackend(AsyncBackendBase):
             tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
 
             fh.seek(0)
-            with ExitStack() as es:
-                try:
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
-                except FileNotFoundError:
-                    try:  # noqa: SIM105 # auto-added, needs manual check!
-                        os.makedirs(os.path.dirname(path))
-                    except FileExistsError:
-                        # Another thread may have created the directory already
-                        pass
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
-
-                dest.write(b's3ql_1\n')
-                dest.write(struct.pack('<H', len(buf)))
-                dest.write(buf)
-                await trio.to_thread.run_sync(copyfh, fh, dest)
-                size = dest.tell()
-            os.rename(tmpname, path)
+            try:
+                with ExitStack() as es:
+                    try:
+                        dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    except FileNotFoundError:
+                        try:  # noqa: SIM105 # auto-added, needs manual check!
+                            os.makedirs(os.path.dirname(path))
+                        except FileExistsError:
+                            # Another thread may have created the directory already
+                            pass
+                        dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+
+                    dest.write(b's3ql_1\n')
+                    dest.write(struct.pack('<H', len(buf)))
+                    dest.write(buf)
+                    await trio.to_thread.run_sync(copyfh, fh, dest)
+                    size = dest.tell()
+                os.rename(tmpname, path)
+            except BaseException:
+                # Do not leave a partial file behind
+                with suppress(FileNotFoundError):
+                    os.unlink(tmpname)
+                raise
 
         return size
 
-- 
2.43.0


From 45fef8154f4d146aaf81a99827c43f504814ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 31/53] fix: s3c, swift: report malformed object metadata as
 such

---
 src/s3ql/backends/common.py |  4 +++-
 src/s3ql/backends/s3c.py    | 25 +++++++++----------------
 src/s3ql/backends/swift.py  | 25 +++++++++----------------
 3 files changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/s3ql/backends/common.py b/src/s3ql/backends/common.py
index 0923d76..3be519f 100644
--- a/src/s3ql/backends/common.py
+++ b/src/s3ql/backends/common.py
@@ -605,8 +605,10 @@ def checksum_basic_mapping(metadata: BasicMappingT, key: bytes | None = None) ->
     else:
         chk = hmac.new(key, digestmod=hashlib.sha256)
 
+    if not all(isinstance(mkey, str) for mkey in metadata):
+        raise ValueError("Don't know how to checksum mappings with non-string keys")
+
     for mkey in sorted(metadata.keys()):
-        assert isinstance(mkey, str)
         if mkey == 'signature':
             continue
         chk.update(mkey.encode('utf-8'))
diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..3d7f2de 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -8,7 +8,6 @@ This work can be distributed under the terms of the GNU GPLv3.
 
 from __future__ import annotations
 
-import binascii
 import builtins
 import email.message
 import hashlib
@@ -18,8 +17,7 @@ import re
 import ssl
 import time
 import urllib.parse
-from ast import literal_eval
-from base64 import b64decode, b64encode
+from base64 import b64encode
 from collections.abc import AsyncIterator, Sequence
 from email.utils import mktime_tz, parsedate_tz
 from io import BytesIO
@@ -40,6 +38,7 @@ from s3ql.http import (
 )
 from s3ql.types import BasicMappingT, BinaryInput, BinaryOutput
 
+from ..common import ThawError, thaw_basic_mapping
 from ..logging import QuietError
 from .common import (
     _FACTORY_SENTINEL,
@@ -707,17 +706,12 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
-
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+        try:
+            meta = thaw_basic_mapping(('{ %s }' % buf).encode('utf-8'))
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        except (ThawError, ValueError):
+            # Malformed metadata cannot match the checksum either
+            md5 = None
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -726,8 +720,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3309e7b..4b78c06 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -6,15 +6,13 @@ Copyright © 2008 Nikolaus Rath <Nikolaus@rath.org>
 This work can be distributed under the terms of the GNU GPLv3.
 '''
 
-import binascii
 import hashlib
 import json
 import logging
 import re
 import ssl
 import urllib.parse
-from ast import literal_eval
-from base64 import b64decode, b64encode
+from base64 import b64encode
 from collections.abc import AsyncIterator, Sequence
 from contextlib import asynccontextmanager
 from dataclasses import dataclass
@@ -34,6 +32,7 @@ from s3ql.http import (
 )
 from s3ql.types import BinaryInput, BinaryOutput
 
+from ..common import ThawError, thaw_basic_mapping
 from ..logging import LOG_ONCE, QuietError
 from .common import (
     _FACTORY_SENTINEL,
@@ -168,17 +167,12 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
-
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+        try:
+            meta = thaw_basic_mapping(('{ %s }' % buf).encode('utf-8'))
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        except (ThawError, ValueError):
+            # Malformed metadata cannot match the checksum either
+            md5 = None
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -187,8 +181,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
-- 
2.43.0


From 9a5de032631a9397d92a0135bbdca3f383a3e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 32/53] fix: gs: report malformed object metadata as corrupted

---
 src/s3ql/backends/gs.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 4318795..0da3978 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -36,7 +36,7 @@ from s3ql.http import (
 )
 from s3ql.types import BasicMappingT, BinaryInput, BinaryOutput
 
-from ..common import OAUTH_CLIENT_ID, OAUTH_CLIENT_SECRET
+from ..common import OAUTH_CLIENT_ID, OAUTH_CLIENT_SECRET, ThawError, thaw_basic_mapping
 from ..logging import QuietError
 from .common import (
     _FACTORY_SENTINEL,
@@ -707,7 +707,10 @@ def _unwrap_user_meta(json_resp: dict[str, object]) -> BasicMappingT:
     if meta_raw_obj is None:
         return {}
 
-    assert isinstance(meta_raw_obj, dict)
+    if not isinstance(meta_raw_obj, dict) or not all(
+        isinstance(v, str) for v in meta_raw_obj.values()
+    ):
+        raise CorruptedObjectError('Invalid metadata')
     meta_raw: dict[str, str] = meta_raw_obj  # type: ignore[assignment]
 
     # Detect Legacy format.
@@ -723,22 +726,19 @@ def _unwrap_user_meta(json_resp: dict[str, object]) -> BasicMappingT:
                 break
             parts.append(part)
         buf = ''.join(parts)
-        meta: BasicMappingT = literal_eval('{ %s }' % buf)
-        for k, v in meta.items():
-            if isinstance(v, bytes):
-                meta[k] = b64decode(v)
-
-        return meta
+        try:
+            return thaw_basic_mapping(('{ %s }' % buf).encode('utf-8'))
+        except (ThawError, ValueError):
+            raise CorruptedObjectError('Invalid metadata')
 
     meta = {}
     for k, v in meta_raw.items():
         try:
             v2 = literal_eval(v)
-        except ValueError as exc:
+            if isinstance(v2, bytes):
+                v2 = b64decode(v2)
+        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError) as exc:
             raise CorruptedObjectError('Invalid metadata value: ' + str(exc))
-        if isinstance(v2, bytes):
-            meta[k] = b64decode(v2)
-        else:
-            meta[k] = v2
+        meta[k] = v2
 
     return meta
-- 
2.43.0


From a0a8ace1105f43c195ccf21562e618dad6bc88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 33/53] fix: report malformed objects as corrupted regardless
 of what is wrong with them

---
 src/s3ql/backends/comprenc.py | 41 +++++++++++++++--------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..d02125b 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -253,7 +253,10 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('signature should be bytes')
         assert self.passphrase is not None
         meta_key = sha256(self.passphrase + nonce + b'meta')
-        meta_sig = checksum_basic_mapping(metadata, meta_key)
+        try:
+            meta_sig = checksum_basic_mapping(metadata, meta_key)
+        except ValueError:
+            raise CorruptedObjectError('Invalid metadata')
         if not hmac.compare_digest(signature, meta_sig):
             raise CorruptedObjectError('HMAC mismatch')
 
@@ -294,15 +297,12 @@ class AsyncComprencBackend(AsyncBackend):
         else:
             data_key = None
         compr_token = meta_raw['compression']
-        assert isinstance(compr_token, str)
         encr_alg = meta_raw['encryption']
-        assert isinstance(encr_alg, str)
         if encr_alg != 'AES_v2' and encr_alg != 'None':
-            raise RuntimeError('Unsupported encryption: %r' % encr_alg)
-        try:
-            compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
-        except KeyError:
-            raise RuntimeError('Unsupported compression: %r' % compr_token)
+            raise CorruptedObjectError('Unsupported encryption: %r' % encr_alg)
+        if not isinstance(compr_token, str) or compr_token not in _ALGORITHM_BY_TOKEN:
+            raise CorruptedObjectError('Unsupported compression: %r' % compr_token)
+        compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
 
         # The `payload_offset` key only exists if the storage object was created with on old S3QL
         # version. In order to avoid having to download and re-upload the entire object during the
@@ -310,7 +310,8 @@ class AsyncComprencBackend(AsyncBackend):
         # of the object we have to skip to get to the payload.
         if 'payload_offset' in meta_raw:
             off = meta_raw['payload_offset']
-            assert isinstance(off, int)
+            if not isinstance(off, int) or off < 0:
+                raise CorruptedObjectError('Invalid payload offset: %r' % off)
             buf.seek(off)
         else:
             buf.seek(0)
@@ -318,7 +319,8 @@ class AsyncComprencBackend(AsyncBackend):
         # __size was introduced without bumping the filesystem revision, so some objects
         # may not have it. If it's available, use that instead of the size_hint.
         if v := meta.pop('__size', None):
-            assert isinstance(v, int)
+            if not isinstance(v, int):
+                raise CorruptedObjectError('Invalid object size: %r' % v)
             size_hint = v
 
         # In contrast to write_fh, we potentially use sync decompression/decryption here even
@@ -626,20 +628,11 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
 
     try:
         return decomp.decompress(buf)
-    except OSError as exc:
-        if exc.args[0].lower().startswith('invalid data stream'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
-        ):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
+    except (OSError, lzma.LZMAError, zlib.error):
+        # No I/O is happening here, OSError is what the bz2 module raises for invalid data.
+        raise CorruptedObjectError('Invalid compressed stream')
+    except EOFError:
+        raise CorruptedObjectError('Data after end of compressed stream')
 
 
 class ObjectNotEncrypted(Exception):
-- 
2.43.0


From 6cd056bfb1d1f8f6cd880bf2e7be200d7b03cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 34/53] fix: swift: verify uploads over unencrypted connections

---
 src/s3ql/backends/swift.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 4b78c06..bd0f446 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -450,6 +450,13 @@ class AsyncBackend(AsyncBackendBase):
 
         # Success
         if 200 <= resp.status <= 299:
+            if md5_hex is not None:
+                etag = resp.headers['ETag'].strip('"').lower()
+                if etag != md5_hex:
+                    raise BadDigestError(
+                        'BadDigest',
+                        f'MD5 mismatch when uploading {path} (received: {etag}, sent: {md5_hex})',
+                    )
             return resp
 
         # Expired auth token
@@ -563,14 +570,14 @@ class AsyncBackend(AsyncBackendBase):
 
         headers['Content-Type'] = 'application/octet-stream'
 
-        if self.ssl_context:
-            md5_hex: str | None = None
-        else:
-            md5_hex = await hash_fh(fh, 'md5')
-            headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
-
         try:
             async with self._borrow_conn() as conn:
+                # `self.ssl_context` is always set, what matters is if the connection uses it.
+                if conn.ssl_context:
+                    md5_hex: str | None = None
+                else:
+                    md5_hex = await hash_fh(fh, 'md5')
+                    headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
                 resp = await self._do_request(
                     conn,
                     'PUT',
-- 
2.43.0


From 4ec5e1310170dd63865ad5500484214132b5a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 35/53] fix: swift: repeat transfers that arrived damaged

---
 src/s3ql/backends/swift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index bd0f446..d9e372c 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -270,7 +270,7 @@ class AsyncBackend(AsyncBackendBase):
             raise
 
     def is_temp_failure(self, exc):  # IGNORE:W0613
-        if isinstance(exc, AuthenticationExpired):  # noqa: SIM114
+        if isinstance(exc, (AuthenticationExpired, BadDigestError)):  # noqa: SIM114
             return True
 
         # In doubt, we retry on 5xx (Server error). However, there are some
-- 
2.43.0


From 825289ef3aa038a43f35277cd0247144ea55bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 36/53] fix: http: do not reuse a connection after an
 incomplete request body

---
 src/s3ql/http.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index d70dfc0..c01e58e 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -259,6 +259,10 @@ class HTTPConnection:
         #: been completely consumed.
         self._response_open: bool = False
 
+        #: True when the request body has not been completely transferred, so that
+        #: the connection cannot be used for another request.
+        self._body_aborted: bool = False
+
     @property
     def timeout(self) -> float:
         return self._timeout
@@ -311,6 +315,7 @@ class HTTPConnection:
         self._pending_method = None
         self._pending_path = None
         self._response_open = False
+        self._body_aborted = False
 
         log.debug('done')
 
@@ -455,7 +460,8 @@ class HTTPConnection:
         assert self._h11 is not None
 
         if (
-            self._h11.our_state is h11.MUST_CLOSE
+            self._body_aborted
+            or self._h11.our_state is h11.MUST_CLOSE
             or self._h11.their_state is h11.MUST_CLOSE
             or self._h11.our_state is h11.CLOSED
             or self._h11.their_state is h11.CLOSED
@@ -525,6 +531,7 @@ class HTTPConnection:
             # error response, if any, may already be sitting in the
             # receive buffer; try to read it. Otherwise drop the
             # half-broken connection and re-raise.
+            self._body_aborted = True
             try:
                 return await self._read_response()
             except Exception:
@@ -869,6 +876,7 @@ class HTTPConnection:
         return (
             self._stream is not None
             and self._h11 is not None
+            and not self._body_aborted
             and self._h11.our_state is h11.IDLE
             and self._h11.their_state is h11.IDLE
         )
-- 
2.43.0


From 3e6db0bf4318a3d3dfe431879cd37533b7a2d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 37/53] fix: quote spaces in metadata headers

White space at the boundary between two header chunks is lost in transmission, so metadata values
containing spaces could come back with a checksum mismatch.
---
 src/s3ql/backends/s3c.py   | 4 +++-
 src/s3ql/backends/swift.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 3d7f2de..559e098 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -456,7 +456,9 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            # Spaces must be quoted, because they are not preserved at the start or end of a header
+            # value (which may be the boundary between two chunks).
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index d9e372c..9b197fb 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -128,7 +128,9 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            # Spaces must be quoted, because they are not preserved at the start or end of a header
+            # value (which may be the boundary between two chunks).
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
-- 
2.43.0


From 54e55a1120b90684e9182905297ddf7b32f5acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 38/53] fix: local backend detects partial writes

With an unbuffered file, a write that stores only part of the data (because the disk is full) does not
raise an error. If this happened on the last write, a truncated object was published.
---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 13ab542..0dc93e5 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -178,14 +178,14 @@ class AsyncBackend(AsyncBackendBase):
             try:
                 with ExitStack() as es:
                     try:
-                        dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                        dest = es.enter_context(open(tmpname, 'wb'))
                     except FileNotFoundError:
                         try:  # noqa: SIM105 # auto-added, needs manual check!
                             os.makedirs(os.path.dirname(path))
                         except FileExistsError:
                             # Another thread may have created the directory already
                             pass
-                        dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                        dest = es.enter_context(open(tmpname, 'wb'))
 
                     dest.write(b's3ql_1\n')
                     dest.write(struct.pack('<H', len(buf)))
-- 
2.43.0


From 562b49527c75e5f65e080b67fa465fa06f278fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 39/53] fix: local backend uses distinct temporary files for
 concurrent writes

Writes of the same key that run concurrently in one thread used the same temporary file, so that one of
them could publish an object that the other was still writing.
---
 src/s3ql/backends/local.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 0dc93e5..ed84f75 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -8,8 +8,8 @@ This work can be distributed under the terms of the GNU GPLv3.
 
 from __future__ import annotations
 
-import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
@@ -34,6 +34,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# Distinguishes temporary files of concurrent writes
+_tmp_counter = itertools.count()
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -172,7 +175,7 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), next(_tmp_counter))
 
             fh.seek(0)
             try:
-- 
2.43.0


From 8994872e7385d0c8d840df088aa0bfbe7493cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 40/53] fix: detect partial writes to the block cache

If the cache file system is full, a write to an unbuffered file may store only part of the data without
raising an error. The remainder was lost silently.
---
 src/s3ql/block_cache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index b29d93b..f420d3b 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -118,9 +118,13 @@ class CacheEntry:
 
     def write(self, buf: bytes) -> None:
         self.dirty = True
-        self.fh.write(buf)
-        self.pos += len(buf)
-        self.size = max(self.pos, self.size)
+        # Writes to an unbuffered file may be incomplete (e.g. if the disk is full)
+        view = memoryview(buf)
+        while view:
+            written = self.fh.write(view)
+            self.pos += written
+            self.size = max(self.pos, self.size)
+            view = view[written:]
         self.last_write = time.time()
 
     def close(self) -> None:
-- 
2.43.0


From 2d1563d07c6d7e99fa2f760757bc06001ba008f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 41/53] fix: detect partial writes when downloading metadata

Unbuffered writes may be incomplete without raising an error. In failsafe mode this was not detected by
the checksum of the database either.
---
 src/s3ql/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 41a636c..352c717 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -995,7 +995,7 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     async def consume(self, jobs: AsyncIterable[_BlockJob]) -> None:
         # Per-worker file handle: workers seek independently, so a shared
         # handle would race on the file position.
-        with open(self.db_file, 'r+b', buffering=0) as fh:
+        with open(self.db_file, 'r+b') as fh:
             blocksize = self.params.metadata_block_size
             async for job in jobs:
                 log.debug('Worker downloading block %d', job.blockno)
-- 
2.43.0


From 75c86a36d1e43518632cdcc3275c0ab2e3d50c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 42/53] fix: choose the proxy of Swift connections by their own
 use of TLS

With the no-ssl option (or a plain storage URL) connections use plain HTTP, but
always used the proxy that is configured for SSL connections.
---
 src/s3ql/backends/swift.py   | 14 +++++++++-----
 src/s3ql/backends/swiftks.py |  7 +++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 9b197fb..b7319a1 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -230,8 +230,6 @@ class AsyncBackend(AsyncBackendBase):
         # parsing logic), because derived backends (e.g. swiftks://) override it.
         self._parse_storage_url(storage_url, self.ssl_context)
 
-        self.proxy = get_proxy(self.ssl_context is not None)
-
     def _parse_storage_url(self, storage_url: str, ssl_context: ssl.SSLContext | None) -> None:
         '''Parse storage URL and set instance attributes.'''
         hit = re.match(
@@ -331,7 +329,7 @@ class AsyncBackend(AsyncBackendBase):
                         auth.storage_host,
                         port=auth.storage_port,
                         ssl_context=auth.ssl_context,
-                        proxy=self.proxy,
+                        proxy=get_proxy(auth.ssl_context is not None),
                         max_connections=self._max_connections,
                         timeout=int(self.options.get('tcp-timeout', 20)),
                     )
@@ -357,7 +355,10 @@ class AsyncBackend(AsyncBackendBase):
         headers['X-Auth-Key'] = self.password
 
         async with HTTPConnection(
-            self.hostname, self.port, proxy=self.proxy, ssl_context=ssl_context
+            self.hostname,
+            self.port,
+            proxy=get_proxy(ssl_context is not None),
+            ssl_context=ssl_context,
         ) as conn:
             conn.timeout = int(self.options.get('tcp-timeout', 20))
 
@@ -867,7 +868,10 @@ class AsyncBackend(AsyncBackendBase):
         detected_features = Features()
 
         async with HTTPConnection(
-            hostname, port, proxy=self.proxy, ssl_context=ssl_context
+            hostname,
+            port,
+            proxy=get_proxy(ssl_context is not None),
+            ssl_context=ssl_context,
         ) as conn:
             conn.timeout = int(self.options.get('tcp-timeout', 20))
 
diff --git a/src/s3ql/backends/swiftks.py b/src/s3ql/backends/swiftks.py
index 44d00c5..0e8f53a 100644
--- a/src/s3ql/backends/swiftks.py
+++ b/src/s3ql/backends/swiftks.py
@@ -16,7 +16,7 @@ from s3ql.http import CaseInsensitiveDict, HTTPConnection
 
 from ..logging import QuietError
 from . import swift
-from .common import AuthorizationError, DanglingStorageURLError, retry
+from .common import AuthorizationError, DanglingStorageURLError, get_proxy, retry
 from .s3c import HTTPError
 from .swift import _AuthResult
 
@@ -167,7 +167,10 @@ class AsyncBackend(swift.AsyncBackend):
                 auth_body['auth']['tenantName'] = tenant
 
         async with HTTPConnection(
-            self.hostname, port=self.port, proxy=self.proxy, ssl_context=ssl_context
+            self.hostname,
+            port=self.port,
+            proxy=get_proxy(ssl_context is not None),
+            ssl_context=ssl_context,
         ) as conn:
             conn.timeout = int(self.options.get('tcp-timeout', 20))
 
-- 
2.43.0


From 85b5f8b2fee90e070ebf33767c227684f70e2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 43/53] fix: umount: do not fail if the daemon terminates while
 reading its command line

---
 src/s3ql/umount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/umount.py b/src/s3ql/umount.py
index e916221..32b9576 100644
--- a/src/s3ql/umount.py
+++ b/src/s3ql/umount.py
@@ -97,7 +97,8 @@ def get_cmdline(pid: int) -> str | None:
             with open('/proc/%d/cmdline' % pid, 'r') as cmd_file:
                 return cmd_file.read()
 
-        except FileNotFoundError:
+        # The process may also terminate between opening and reading the file.
+        except (FileNotFoundError, ProcessLookupError):
             return None
 
     else:
-- 
2.43.0


From de2dd0d5b40cf90a7c0e6d88f5fd0e77b973aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 44/53] fix: recognize mounted file systems whose storage URL
 contains blanks

/proc/mounts has blanks, tabs, backslashes and newlines as octal escape sequences, so that
fsck.s3ql, s3qladm and mount.s3ql went on to work on a mounted file system if its storage URL
contained such a character.
---
 src/s3ql/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 6066d25..27315e6 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -14,6 +14,7 @@ import hashlib
 import logging
 import os
 import posixpath
+import re
 import subprocess
 import sys
 import time
@@ -63,11 +64,16 @@ def is_mounted(storage_url: str) -> bool:
     a best-effort guess.
     '''
 
-    match = storage_url + ' '
     if os.path.exists('/proc/mounts'):
+        # The kernel writes blanks and some other characters as octal escape sequences
         with open('/proc/mounts') as fh:
-            return any(line.startswith(match) for line in fh)
+            return any(
+                re.sub(r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), line.split(' ')[0])
+                == storage_url
+                for line in fh
+            )
 
+    match = storage_url + ' '
     try:
         for line in subprocess.check_output(
             ['mount'], stderr=subprocess.STDOUT, universal_newlines=True
-- 
2.43.0


From 4a3b7e44dfcf9ec2f7d56126d550aa239ff89428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:42 +0000
Subject: [PATCH 45/53] fix: local: report directories that cannot be listed

os.walk() ignores directories that cannot be read, so their objects looked as if they did not exist.
---
 src/s3ql/backends/local.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ed84f75..7f65606 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -237,7 +237,13 @@ class AsyncBackend(AsyncBackendBase):
         else:
             base = self.prefix
 
-        for path, dirnames, filenames in os.walk(base, topdown=True):
+        def onerror(exc: OSError) -> None:
+            # By default, os.walk() ignores directories that cannot be read. However, this must not
+            # make it look as if the objects stored there do not exist.
+            if not isinstance(exc, FileNotFoundError):
+                raise exc
+
+        for path, dirnames, filenames in os.walk(base, topdown=True, onerror=onerror):
             # Do not look in wrong directories
             if prefix:
                 rpath = path[len(self.prefix) :]  # path relative to base
-- 
2.43.0


From 263b984221482464f8773814c6566d1a84171f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:23 +0000
Subject: [PATCH 46/53] fix: database: allow writes again if they cannot be
 inhibited completely

If the second connection could not be opened or the exclusive lock not be
taken again, checkpoints were blocked and writes to the database rejected
until the process ended.
---
 src/s3ql/database.py | 55 +++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 352c717..264a56b 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -341,39 +341,42 @@ class Connection:
         self._inhibit_writes_event = trio.Event()
         sqlite3ext.set_writes_inhibited(True)
 
-        # Switch to NORMAL locking mode temporarily so we can open a second connection.
-        # We need to do a read after changing the mode to actually release the exclusive lock.
-        self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
-        self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
+        second_conn: apsw.Connection | None = None
+        try:
+            # Switch to NORMAL locking mode temporarily so we can open a second connection.
+            # We need to do a read after changing the mode to actually release the exclusive lock.
+            self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
+            self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
-        # Open a second connection and start a read transaction.
-        # This establishes a WAL "end mark" that prevents checkpointing past this point,
-        # ensuring the main database file stays consistent while we read it.
-        second_conn = apsw.Connection(self.file)
-        second_cur = second_conn.cursor()
-        second_cur.execute('BEGIN DEFERRED')
-        second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
+            # Open a second connection and start a read transaction.
+            # This establishes a WAL "end mark" that prevents checkpointing past this point,
+            # ensuring the main database file stays consistent while we read it.
+            second_conn = apsw.Connection(self.file)
+            second_cur = second_conn.cursor()
+            second_cur.execute('BEGIN DEFERRED')
+            second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
-        log.debug('inhibit_writes: active, writes to main DB file will be rejected')
+            log.debug('inhibit_writes: active, writes to main DB file will be rejected')
 
-        try:
             yield
         finally:
             log.debug('inhibit_writes: writes re-enabled')
 
-            # End the read transaction and close the second connection
-            second_cur.execute('ROLLBACK')
-            second_conn.close()
-
-            # Switch back to EXCLUSIVE locking mode and acquire the lock
-            self.conn.cursor().execute('PRAGMA locking_mode = EXCLUSIVE')
-            self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
-            sqlite3ext.set_writes_inhibited(False)
-
-            # Signal any waiting checkpoint() calls
-            self._inhibit_writes_event.set()
-            self._inhibit_writes_event = None
-            log.debug('inhibit_writes: finished')
+            try:
+                # Close the second connection (this also ends its read transaction)
+                if second_conn is not None:
+                    second_conn.close()
+
+                # Switch back to EXCLUSIVE locking mode and acquire the lock
+                self.conn.cursor().execute('PRAGMA locking_mode = EXCLUSIVE')
+                self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
+            finally:
+                sqlite3ext.set_writes_inhibited(False)
+
+                # Signal any waiting checkpoint() calls
+                self._inhibit_writes_event.set()
+                self._inhibit_writes_event = None
+                log.debug('inhibit_writes: finished')
 
     def batch(self, dt_target: float) -> BatchedTransactionManager:
         return BatchedTransactionManager(self, dt_target)
-- 
2.43.0


From 675bbaf1c2551f0cb4ad4878b3b9afc114c3d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:42 +0000
Subject: [PATCH 47/53] fix: fs: refuse to move entries into a directory that
 has been removed

Like for creating and linking entries, moving them into a directory that
is only kept alive by open handles would leave them without a path from
the root directory.
---
 src/s3ql/fs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c8af130..743d6bf 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -815,6 +815,12 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning(
+                'Attempted to move entry %s to unlinked parent %d', name_new, id_p_new
+            )
+            raise FUSEError(errno.EINVAL)
+
         id_old = self._lookup(id_p_old, name_old, ctx).id
         looked_up = [(id_old, 1)]
 
-- 
2.43.0


From 039ab77e11802937b56e32a4d6fb096299a06607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:42 +0000
Subject: [PATCH 48/53] fix: get_path: return a path for every inode

The paths are only used in messages (and for naming entries in
/lost+found). Raising an exception for inodes that are nested more than
255 levels deep, in a directory loop, or unlinked terminated the file
system (when removing a deep directory that is not empty, or creating a
control file in a removed directory) and fsck.s3ql.
---
 src/s3ql/common.py | 31 +++++++++++++++++++++----------
 src/s3ql/fsck.py   | 25 +++++++------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 27315e6..74ccfb8 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -121,8 +121,14 @@ def get_path(id_: InodeT, conn: Connection, name: bytes | None = None) -> bytes:
     If `name` is specified, it is appended at the very end of the
     path (useful if looking up the path for file name with parent
     inode).
+
+    If there is no path from the root directory to the inode (because it has
+    been unlinked, or is part of a directory loop), the path starts with the
+    number of the last inode that could be reached.
     """
 
+    from .database import NoSuchRowError
+
     if name is None:
         path: list[bytes] = list()
     else:
@@ -130,18 +136,23 @@ def get_path(id_: InodeT, conn: Connection, name: bytes | None = None) -> bytes:
             raise TypeError('name must be of type bytes')
         path = [name]
 
-    maxdepth = 255
+    visited: set[InodeT] = set()
     while id_ != ROOT_INODE:
-        # This can be ambiguous if directories are hardlinked
-        (name2, id_) = conn.get_row_typed(
-            (bytes, InodeT),
-            "SELECT name, parent_inode FROM contents_v WHERE inode=? LIMIT 1",
-            (id_,),
-        )
+        visited.add(id_)
+        try:
+            # This can be ambiguous if directories are hardlinked
+            (name2, parent) = conn.get_row_typed(
+                (bytes, InodeT),
+                "SELECT name, parent_inode FROM contents_v WHERE inode=? LIMIT 1",
+                (id_,),
+            )
+        except NoSuchRowError:
+            parent = None
+        if parent is None or parent in visited:
+            path.append(b'[inode %d]' % id_)
+            break
         path.append(name2)
-        maxdepth -= 1
-        if maxdepth == 0:
-            raise RuntimeError(f'Failed to resolve name "{name!r}" at inode {id_} to path')
+        id_ = parent
 
     path.append(b'')
     path.reverse()
diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index bbd2dd0..40368a8 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -421,12 +421,8 @@ class Fsck:
             'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
         ):
             self.found_errors = True
-            try:
-                path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
-                newname = ('-%d' % inode).encode()
-            else:
-                newname = escape(path) + ('-%d' % inode).encode()
+            path = get_path(inode_p, self.conn)[1:]
+            newname = escape(path) + ('-%d' % inode).encode()
             (id_p_new, newname) = self.resolve_free(b"/lost+found", newname)
 
             self.log_error(
@@ -475,22 +471,15 @@ class Fsck:
         log.info('Checking contents (inodes)...')
 
         to_delete: list[int] = []
-        for rowid, inode_p, inode, name_id in self.conn.query_typed(
-            (int, InodeT, InodeT, int),
-            'SELECT contents.rowid, parent_inode, inode, '
-            'name_id FROM contents LEFT JOIN inodes '
+        for rowid, inode, name_id in self.conn.query_typed(
+            (int, InodeT, int),
+            'SELECT contents.rowid, inode, name_id FROM contents LEFT JOIN inodes '
             'ON %(dbf)sinode = %(dbf)sinodes.id '
             'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
         ):
             self.found_errors = True
-            try:
-                path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
-                path = '[inode %d, parent %d]' % (inode, inode_p)
-
-            self.log_error(
-                'Inode for %s vanished, deleting', to_str(path) if isinstance(path, bytes) else path
-            )
+            path = get_path(inode, self.conn)[1:]
+            self.log_error('Inode for %s vanished, deleting', to_str(path))
             self._del_name(name_id)
             to_delete.append(rowid)
 
-- 
2.43.0


From db038af5bfb3ee2e75d4b08985c9667563afb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:09 +0000
Subject: [PATCH 49/53] fix: remove_tree: do not remove entries that other
 tasks have removed

Removing an entry may give control to other tasks, so the following
entries of the chunk that was read may be gone by the time they are
processed (e.g. if the directory is also being removed by "rm -rf").
Removing them again terminated the file system.
---
 src/s3ql/fs.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 743d6bf..a7b4f8a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -498,7 +498,11 @@ class Operations(pyfuse3.Operations):
                             pyfuse3.invalidate_entry_async(
                                 id_p, name, deleted=id_, ignore_enoent=True
                             )
-                        await self._remove(id_p, name, id_, force=True)
+                        try:
+                            await self._remove(id_p, name, id_, force=True)
+                        except FUSEError as exc:
+                            if exc.errno != errno.ENOENT:
+                                raise
                     processed += 1
 
                 if len(query_chunk) == batch_mgr.batch_size and not reinserted:
@@ -734,6 +738,13 @@ class Operations(pyfuse3.Operations):
 
         now_ns = time_ns()
 
+        # When removing trees, other tasks may have removed or replaced the entry since it was read
+        if not self.db.has_val(
+            'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
+            (id_p, name, id_),
+        ):
+            raise FUSEError(errno.ENOENT)
+
         # Check that there are no child entries
         if self.db.has_val("SELECT 1 FROM contents WHERE parent_inode=?", (id_,)):
             log.debug("Attempted to remove entry with children: %s", get_path(id_p, self.db, name))
-- 
2.43.0


From 3a92a0fd294777f0f815f956846d77f9b1367155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:18 +0000
Subject: [PATCH 50/53] fix: copy_tree: handle changes of the target directory
 while copying

If the target directory had been removed in the meantime, the copied
entries ended up in a directory that does not exist. If it had gotten an
entry with the same name as one of the copied entries, the file system
was terminated by a constraint violation.
---
 src/s3ql/fs.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index a7b4f8a..9c1ab7a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -457,8 +457,8 @@ class Operations(pyfuse3.Operations):
             await self.forget([(id0, 1)])
         log.debug('finished')
 
-    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
-        '''Remove entry *name0* (with inode *id0*) of *id_p0* and everything below it'''
+    async def _remove_entries(self, id0: InodeT) -> None:
+        '''Remove all entries below directory *id0*'''
 
         conn = self.db
         queue = [id0]  # Directories that we still need to delete
@@ -515,6 +515,11 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        '''Remove entry *name0* (with inode *id0*) of *id_p0* and everything below it'''
+
+        await self._remove_entries(id0)
+
         if id_p0 in self.open_inodes:
             log.debug('invalidate_entry(%d, %r)', id_p0, name0)
             # This may fail with ENOTEMPTY if the control file has been looked up underneath this
@@ -659,6 +664,24 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+        # Other tasks may have removed the target, or created entries in it
+        conflict = None
+        try:
+            if self.inodes[target_inode.id].refcount == 0:
+                conflict = errno.ENOENT
+        except KeyError:
+            conflict = errno.ENOENT
+        if conflict is None and db.has_val(
+            'SELECT 1 FROM contents WHERE parent_inode=? AND name_id IN '
+            '(SELECT name_id FROM contents WHERE parent_inode=?)',
+            (target_inode.id, tmp.id),
+        ):
+            conflict = errno.EEXIST
+        if conflict is not None:
+            await self._remove_entries(tmp.id)
+            del self.inodes[tmp.id]
+            raise FUSEError(conflict)
+
         # Make replication visible
         self.db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
-- 
2.43.0


From 517b8ad3a17733a9a0ee28b45c6b551757ef169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:26 +0000
Subject: [PATCH 51/53] fix: fsck: check reachability of deeply nested
 directories

Directories nested more than about 1000 levels deep made fsck.s3ql fail
with a RecursionError.
---
 src/s3ql/fsck.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 40368a8..35d31de 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -565,11 +565,20 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            # Directories may be nested too deep for recursion
+            queue = [inode_p]
+            while queue:
+                inode = queue.pop()
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode,))
+                queue.extend(
+                    child
+                    for (child,) in self.conn.query_typed(
+                        (InodeT,),
+                        'SELECT inode FROM loopcheck JOIN loopcheck2 USING (inode) '
+                        'WHERE parent_inode=?',
+                        (inode,),
+                    )
+                )
 
         root: InodeT = ROOT_INODE
         while True:
-- 
2.43.0


From 6ed3b810580003ba1752cbee2a56de9c9ac3eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:27 +0000
Subject: [PATCH 52/53] fix: inode cache: keep changes when they cannot be
 written

If writing an inode to the database failed (e.g. because the disk is
full), the inode was considered clean and dropped from the cache
nevertheless, so that its changes were lost without notice even if
later writes succeeded.
---
 src/s3ql/inode_cache.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/inode_cache.py b/src/s3ql/inode_cache.py
index ca790f1..b908b80 100644
--- a/src/s3ql/inode_cache.py
+++ b/src/s3ql/inode_cache.py
@@ -210,8 +210,6 @@ class InodeCache:
                 raise KeyError('No such inode: %d' % id_)
 
             old_id = self.cached_rows[self.pos]
-            self.cached_rows[self.pos] = id_
-            self.pos = (self.pos + 1) % CACHE_SIZE
             if old_id is not None:
                 try:
                     old_inode = self.attrs[old_id]
@@ -219,8 +217,11 @@ class InodeCache:
                     # We may have deleted that inode
                     pass
                 else:
-                    del self.attrs[old_id]
+                    # If this fails, the changes must remain in the cache
                     self.setattr(old_inode)
+                    del self.attrs[old_id]
+            self.cached_rows[self.pos] = id_
+            self.pos = (self.pos + 1) % CACHE_SIZE
             self.attrs[id_] = inode
             return inode
 
@@ -249,12 +250,12 @@ class InodeCache:
     def setattr(self, inode: _Inode) -> None:
         if not inode.dirty:
             return
-        inode.dirty = False
 
         self.db.execute(
             "UPDATE inodes SET %s WHERE id=?" % UPDATE_STR,
             [getattr(inode, x) for x in UPDATE_ATTRS] + [inode.id],
         )
+        inode.dirty = False
 
     def flush_id(self, id_: InodeT) -> None:
         if id_ in self.attrs:
@@ -267,7 +268,6 @@ class InodeCache:
 
         for i in range(len(self.cached_rows)):
             id_ = self.cached_rows[i]
-            self.cached_rows[i] = None
             if id_ is not None:
                 try:
                     inode = self.attrs[id_]
@@ -275,8 +275,9 @@ class InodeCache:
                     # We may have deleted that inode
                     pass
                 else:
-                    del self.attrs[id_]
                     self.setattr(inode)
+                    del self.attrs[id_]
+            self.cached_rows[i] = None
 
         assert len(self.attrs) == 0
 
-- 
2.43.0


From cc08e8908c6b7cbc874da292ecc5eadb1a7f1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:43 +0000
Subject: [PATCH 53/53] fix: do not go through all blocks of huge sparse files

Removing or truncating a file created a set of all block numbers up to
its size, and fsync() looked at each of them. For a sparse file of e.g.
1 PiB this blocked the file system until it ran out of memory. Also
calculate the number of blocks with integers, the last blocks of files
larger than 2^53 bytes were not always removed.
---
 src/s3ql/block_cache.py | 29 ++++++++++++++++++++++++++++-
 src/s3ql/fs.py          | 10 +++++-----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index f420d3b..6f7a7e8 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -802,7 +802,12 @@ class BlockCache:
 
         if end_no is None:
             end_no = start_no + 1
-        blocknos = set(range(start_no, end_no))
+
+        # In a sparse file, almost all of the blocks may not exist. Do not go through all of them.
+        if end_no - start_no > 10000:
+            blocknos = self._existing_blocks(inode, start_no, end_no)
+        else:
+            blocknos = set(range(start_no, end_no))
 
         # First do an opportunistic pass and remove everything where we can
         # immediately get a lock. This is important when removing a file right
@@ -845,6 +850,28 @@ class BlockCache:
 
         log.debug('finished')
 
+    def _existing_blocks(self, inode: InodeT, start_no: int, end_no: int) -> set[int]:
+        """Return blocks of `inode` from `start_no` to, but not including, `end_no` that exist
+
+        This includes blocks that are just being created or retrieved.
+        """
+
+        blocknos = {
+            blockno
+            for (blockno,) in self.db.query_typed(
+                (int,),
+                'SELECT blockno FROM inode_blocks WHERE inode=? AND blockno >= ? AND blockno < ?',
+                (inode, start_no, end_no),
+            )
+        }
+
+        for keys in (self.cache, self.block_lock.locked_keys):
+            for id_, blockno in keys:
+                if id_ == inode and start_no <= blockno < end_no:
+                    blocknos.add(blockno)
+
+        return blocknos
+
     def flush_local(self, inode: InodeT, blockno: int) -> None:
         """Flush buffers for given block"""
 
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 9c1ab7a..b849fce 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -11,7 +11,6 @@ from __future__ import annotations
 import collections
 import errno
 import logging
-import math
 import os
 import stat
 import struct
@@ -733,7 +732,7 @@ class Operations(pyfuse3.Operations):
         and the inode itself from the database and inode cache.
         '''
         log.debug('purging inode %d', id_)
-        await self.cache.remove(id_, 0, int(math.ceil(size / self.max_obj_size)))
+        await self.cache.remove(id_, 0, -(-size // self.max_obj_size))
         # Since the inode is not open, it's not possible that new blocks
         # get created at this point and we can safely delete the inode
         self.db.execute(
@@ -1056,7 +1055,7 @@ class Operations(pyfuse3.Operations):
             # Determine blocks to delete
             last_block = len_ // self.max_obj_size
             cutoff = len_ % self.max_obj_size
-            total_blocks = int(math.ceil(inode.size / self.max_obj_size))
+            total_blocks = -(-inode.size // self.max_obj_size)
 
             # Adjust file size
             inode.size = len_
@@ -1451,8 +1450,9 @@ class Operations(pyfuse3.Operations):
         if not datasync:
             self.inodes.flush_id(inode_id)
 
-        for blockno in range(0, self.inodes[inode_id].size // self.max_obj_size + 1):
-            self.cache.flush_local(inode_id, blockno)
+        for id_, blockno in list(self.cache.cache):
+            if id_ == inode_id:
+                self.cache.flush_local(inode_id, blockno)
 
     async def forget(self, forget_list: Sequence[tuple[InodeT, int]]) -> None:
         log.debug('started with %s', forget_list)
-- 
2.43.0

