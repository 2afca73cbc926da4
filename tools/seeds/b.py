BC = 'src/s3ql/block_cache.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('b01-removed-lock-leak', 'B01', [(BC, '''                log.debug('%s got removed while waiting for lock', el)
                await self.block_lock.release(el.key)
                return False
''', '''                log.debug('%s got removed while waiting for lock', el)
                return False
''')], 'the block is deleted while a task waits for its lock to upload it',
     'the block stays locked for ever', '''
import trio
import trio.testing
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        b = await h.mkfile(b'b', b'x' * 100)
        el = h.cache.cache[(b, 0)]
        async with trio.open_nursery() as n:
            async with h.cache.block_lock((b, 0)):
                n.start_soon(h.cache.upload_if_dirty, el)
                await trio.testing.wait_all_tasks_blocked()
                h.cache.cache.remove((b, 0))
        with trio.fail_after(3):
            async with h.cache.get(b, 0) as e:
                pass

run(main)
''')

seed('b01-lock-granted-twice', 'B01', [('src/s3ql/multi_lock.py', '''            while key in self.locked_keys:
                await self.cond.wait()
''', '''            if key in self.locked_keys:
                await self.cond.wait()
''')], 'two tasks wait for the same lock when it is released', 'both get the lock', '''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import trio
import trio.testing
from s3ql.multi_lock import MultiLock

active = 0

async def user(lock):
    global active
    await lock.acquire('k')
    active += 1
    assert active == 1, 'granted twice'
    await trio.testing.wait_all_tasks_blocked(0.05)
    active -= 1
    await lock.release('k', noerror=True)

async def main():
    lock = MultiLock()
    await lock.acquire('k')
    async with trio.open_nursery() as n:
        n.start_soon(user, lock)
        n.start_soon(user, lock)
        await trio.testing.wait_all_tasks_blocked()
        await lock.release('k')

trio.run(main)
''')

seed('b02-evict-no-recheck', 'B02', [(BC, '''                    if el.dirty:
                        log.debug('%s got dirty while waiting for lock', el)
                        continue
                    log.debug('removing %s from cache', el)
''', '''                    log.debug('removing %s from cache', el)
''')], 'a writer holds the block while it is being evicted', 'the modified block is deleted from the cache without an upload', '''
import trio
import trio.testing
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        await h.cache.flush()
        async with trio.open_nursery() as n:
            async with h.cache.get(a, 0) as el:
                n.start_soon(h.cache.drop)
                await trio.testing.wait_all_tasks_blocked()
                el.seek(0)
                el.write(b'NEW')
        await h.cache.drop()
        assert (await h.fs.read(a, 0, 3)) == b'NEW'

run(main)
''')

seed('b03-failed-upload-keeps-hash', 'B03', [(BC, '''        except:
            if set_in_transit:
                self._unmark_in_transit(el)
            if upload_registered:
''', '''        except Exception:
            if set_in_transit:
                self._unmark_in_transit(el)
            if upload_registered:
''')], 'the task is cancelled while all upload tasks are busy', 'the block stays marked as being uploaded and locked', '''
import trio
import trio.testing
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        el = h.cache.cache[(a, 0)]
        snd = h.cache._upload_send

        class Busy:
            async def send(self, arg):
                await trio.sleep_forever()
        h.cache._upload_send = Busy()
        with trio.move_on_after(0.5):
            await h.cache.upload_if_dirty(el)
        h.cache._upload_send = snd
        assert not el.in_transit and el.dirty
        with trio.fail_after(3):
            async with h.cache.get(a, 0):
                pass

run(main)
''')

seed('b04-link-after-send', 'B04', [(BC, '''                self.db.execute(
                    'INSERT OR REPLACE INTO inode_blocks (obj_id, inode, blockno) VALUES(?,?,?)',
                    (obj_id, el.inode, el.blockno),
                )

                # Register''', '''                # Register'''), (BC, '''                await self._upload_send.send((el, obj_id))

            # There is''', '''                await self._upload_send.send((el, obj_id))
                self.db.execute(
                    'INSERT OR REPLACE INTO inode_blocks (obj_id, inode, blockno) VALUES(?,?,?)',
                    (obj_id, el.inode, el.blockno),
                )

            # There is''')], 'the metadata is saved (or the process dies) while all upload tasks are busy, or the request is cancelled there',
     'the object is handed over for upload before the block refers to it', '''
import trio
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        el = h.cache.cache[(a, 0)]
        seen = []

        class Busy:
            async def send(self, arg):
                seen.append(h.db.get_list('SELECT obj_id FROM inode_blocks WHERE inode=?', (a,)))
                await snd.send(arg)
        snd = h.cache._upload_send
        h.cache._upload_send = Busy()
        await h.cache.upload_if_dirty(el)
        assert len(seen[0]) == 1, seen

run(main)
''')

seed('b05-relink-not-counted', 'B05', [(BC, '''                    log.debug('(re)linking to %d', obj_id)
                    self.db.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
''', '''                    log.debug('(re)linking to %d', obj_id)
                    if old_obj_id is None or el.blockno > 0:
                        self.db.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
''')], 'the first block of a file that was already stored is overwritten with contents that exist elsewhere',
     'the reference count of the shared object is too small, so deleting one file destroys the other', '''
from fsh import filesystem, run, ROOT_INODE, CTX

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        b = await h.mkfile(b'b', b'y' * 100)
        await h.cache.flush()
        await h.fs.write(b, 0, b'x' * 100)
        await h.cache.drop()
        assert await h.fsck(), 'inconsistent'

run(main)
''')

seed('b06-delete-row-late', 'B06', [(BC, '''        log.debug('removing object %d', obj_id)
        self.db.execute('DELETE FROM objects WHERE id=?', (obj_id,))

        log.debug('adding''', '''        log.debug('adding'''),
    (BC, '''            # object would just give us another error.
            return

        await self._remove_send.send(obj_id)
''', '''            # object would just give us another error.
            self.db.execute('DELETE FROM objects WHERE id=?', (obj_id,))
            return

        await self._remove_send.send(obj_id)
        log.debug('removing object %d', obj_id)
        self.db.execute('DELETE FROM objects WHERE id=?', (obj_id,))
''')], 'the same data is written to another file while the removal queue is full',
     'the new block is linked to an object that is then deleted', '''
import trio
import trio.testing
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        b = await h.mkfile(b'b', b'x' * 100)
        el = h.cache.cache[(a, 0)]
        await h.cache.upload_if_dirty(el)
        gate = trio.Event()
        snd = h.cache._remove_send

        class Full:
            async def send(self, arg):
                await gate.wait()
                await snd.send(arg)
        h.cache._remove_send = Full()
        async with trio.open_nursery() as n:
            n.start_soon(h.cache.remove, a, 0)
            await trio.testing.wait_all_tasks_blocked()
            await h.cache.upload_if_dirty(h.cache.cache[(b, 0)])
            gate.set()
        await h.cache.drop()
        assert (await h.fs.read(b, 0, 100)) == b'x' * 100

run(main)
''')

seed('b07-cancelled-download', 'B07', [(BC, '''                    os.rename(tmpfh.name, filename)
                except:
                    os.unlink(tmpfh.name)
                    raise
''', '''                    os.rename(tmpfh.name, filename)
                except Exception:
                    os.unlink(tmpfh.name)
                    raise
''')], 'the request is cancelled during a download', 'the partial file stays in the cache directory', '''
import os
import trio
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        await h.cache.drop()

        async def slow(*a, **kw):
            await trio.sleep_forever()
        h.cache.backend.readinto_fh = slow
        with trio.move_on_after(0.3):
            await h.fs.read(a, 0, 10)
        assert not os.listdir(h.cachedir), os.listdir(h.cachedir)

run(main)
''')

seed('b07-rename-before-sync', 'B07', [(BC, '''                    tmpfh.flush()
                    await trio.to_thread.run_sync(os.fsync, tmpfh.fileno())
                    os.rename(tmpfh.name, filename)
''', '''                    tmpfh.flush()
                    os.rename(tmpfh.name, filename)
                    await trio.to_thread.run_sync(os.fsync, tmpfh.fileno())
''')], 'a crash between the renaming and the completion of the write-back',
     'a cache file that may be incomplete after a crash gets its final name', '''
import os
import trio
from fsh import filesystem, run
import s3ql.block_cache as bc

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        await h.cache.drop()
        log = []
        fsync, rename = os.fsync, os.rename
        os.fsync = lambda fd: (log.append('fsync'), fsync(fd))
        os.rename = lambda x, y: (log.append('rename'), rename(x, y))
        try:
            await h.fs.read(a, 0, 10)
        finally:
            os.fsync, os.rename = fsync, rename
        assert log == ['fsync', 'rename'], log

run(main)
''')

seed('b08-size-on-error', 'B08', [(BC, '''            oldsize = el.size
            try:
                yield el
            finally:
                # Update cachesize. NOTE: this requires that at most one
                # thread has access to a cache entry at any time.
                self.cache.size += el.size - oldsize
''', '''            oldsize = el.size
            yield el

            # Update cachesize. NOTE: this requires that at most one
            # thread has access to a cache entry at any time.
            self.cache.size += el.size - oldsize
''')], 'an operation fails after it made a block longer', 'the cache size is too small from then on', '''
from fsh import filesystem, run

async def main():
    async with filesystem() as h:
        a = await h.mkfile(b'a', b'x' * 100)
        try:
            async with h.cache.get(a, 0) as el:
                el.seek(0)
                el.write(b'y' * 300)
                raise OSError('write failed')
        except OSError:
            pass
        assert h.cache.cache.size == sum(e.size for e in h.cache.cache.values())

run(main)
''')
