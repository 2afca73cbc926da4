F = 'src/s3ql/fs.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('f02-attribute-names-kept', 'F02', [(F, '''        self.db.execute(
            'DELETE FROM names WHERE refcount=0 AND '
            'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
            (id_,),
        )
        self.db.execute('DELETE FROM ext_attributes WHERE inode=?', (id_,))
''', '''        self.db.execute('DELETE FROM ext_attributes WHERE inode=?', (id_,))
        self.db.execute(
            'DELETE FROM names WHERE refcount=0 AND '
            'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
            (id_,),
        )
''')], 'a file is deleted whose extended attribute has a name that nothing else uses',
     'the name stays behind with a count of zero', '''
from fsh import *

async def main():
    async with filesystem() as h:
        i = await h.mkfile(b'a', b'x')
        await h.fs.setxattr(i, b'user.only', b'v', CTX)
        await h.fs.forget([(i, 1)])
        await h.fs.unlink(ROOT_INODE, b'a', CTX)
        n = h.db.get_list('SELECT name, refcount FROM names WHERE refcount < 1 OR name=?', (b'user.only',))
        assert n == [], n

run(main)
''')

seed('f03-replaced-link-count', 'F03', [(F, '''        inode_new = self.inodes[id_new]
        inode_new.refcount -= 1
''', '''        inode_new = self.inodes[id_new]
        if inode_new.refcount == 1:
            inode_new.refcount = 0
''')], 'the target of a rename has several hard links', 'its link count stays too high and it is never deleted', '''
from fsh import *

async def main():
    async with filesystem() as h:
        t = await h.mkfile(b'target', b'x')
        await h.fs.link(t, ROOT_INODE, b'other', CTX)
        await h.mkfile(b'a', b'y')
        await h.fs.rename(ROOT_INODE, b'a', ROOT_INODE, b'target', 0, CTX)
        a = await h.fs.getattr(t, CTX)
        assert a.st_nlink == 1, a.st_nlink

run(main)
''')

seed('f04-readdir-full-buffer', 'F04', [(F, '''                if not pyfuse3.readdir_reply(
                    token, name, self.inodes[cid_].entry_attributes(), next_ + 3
                ):
                    break
                self.open_inodes[cid_] += 1
''', '''                self.open_inodes[cid_] += 1
                if not pyfuse3.readdir_reply(
                    token, name, self.inodes[cid_].entry_attributes(), next_ + 3
                ):
                    break
''')], 'a directory listing that does not fit in the buffer of the kernel',
     'the entry that did not fit is counted as known to the kernel although it is not', '''
from fsh import *

async def main():
    async with filesystem() as h:
        ids = [await h.mkfile(b'f%d' % i) for i in range(5)]
        await h.fs.forget([(i, 1) for i in ids])
        n = [0]
        def reply(token, name, attr, next_):
            n[0] += 1
            return n[0] <= 3
        fs.pyfuse3.readdir_reply = reply
        fh = await h.fs.opendir(ROOT_INODE, CTX)
        await h.fs.readdir(fh, 0, None)
        known = sum(1 for i in h.fs.open_inodes if i != ROOT_INODE)
        assert known == 3, known

run(main)
''')

seed('f06-write-undoes-extension', 'F06', [(F, '''        total = len(buf)
        minsize = offset + total
        while buf:
''', '''        total = len(buf)
        minsize = offset + total
        oldsize = self.inodes[inode_id].size
        while buf:
'''), (F, '''        inode.size = max(inode.size, minsize)
''', '''        if minsize > oldsize:
            inode.size = minsize
''')], 'two tasks extend one file at the same time and the one that writes further back ends first',
     'the extension is undone and data is cut off', '''
import trio.testing
from fsh import *

async def main():
    async with filesystem() as h:
        i = await h.mkfile(b'a')
        async with trio.open_nursery() as n:
            await h.cache.block_lock.acquire((i, 0))
            n.start_soon(h.fs.write, i, 0, b'x' * 10)
            await trio.testing.wait_all_tasks_blocked()
            await h.fs.write(i, 2048, b'y' * 100)
            await h.cache.block_lock.release((i, 0))
        a = await h.fs.getattr(i, CTX)
        assert a.st_size == 2148, a.st_size

run(main)
''')

seed('f07-damaged-on-write', 'F07', [(F, '''                'Backend returned malformed data for block %d of inode %d (%s)', blockno, id_, exc
            )
            self.failsafe = True
            self.broken_blocks[id_].add(blockno)
''', '''                'Backend returned malformed data for block %d of inode %d (%s)', blockno, id_, exc
            )
            self.broken_blocks[id_].add(blockno)
            if not write:
                self.failsafe = True
''')], 'the damaged object is met while a part of its block is overwritten',
     'the file system stays writable although it is known to be damaged', '''
from fsh import *
import glob

async def main():
    async with filesystem() as h:
        i = await h.mkfile(b'a', os.urandom(500))
        await h.cache.drop()
        for f in glob.glob(h.backend_dir + '/**/s3ql_data_*', recursive=True):
            if os.path.isdir(f):
                continue
            with open(f, 'r+b') as fh:
                fh.seek(-20, 2)
                fh.write(b'\\0' * 10)
        try:
            await h.fs.write(i, 10, b'zz')
        except FUSEError as e:
            assert e.errno == 5
        else:
            raise AssertionError('no error')
        assert h.fs.failsafe

run(main)
''')

seed('f12-large-directory', 'F12', [(F, '''                            queue.append((src_id, target_id, name_id))
                            break
''', '''                            queue.append((src_id, target_id, name_id + 1))
                            break
''')], 'a directory with more entries than are copied in one go', 'the copy lacks entries', '''
from fsh import *
from s3ql import database

async def main():
    no_invalidate()
    async with filesystem() as h:
        a = await h.mkdir(b'src')
        b = await h.mkdir(b'dst')
        for i in range(60):
            await h.mkfile(b'f%d' % i, b'', a)
        orig = h.db.batch
        def batch(n):
            m = orig(n)
            m.batch_size = 10
            return m
        h.db.batch = batch
        await h.fs.copy_tree(a, b)
        n = h.db.get_int_val('SELECT COUNT(*) FROM contents WHERE parent_inode=?', (b,))
        assert n == 60, n

run(main)
''')


seed('f01-mode-of-immutable', 'F01', [(F, """        if self.failsafe or inode.locked:
            raise FUSEError(errno.EPERM)

        if fields.update_mode:
""", """        if self.failsafe or (inode.locked and not fields.update_atime):
            raise FUSEError(errno.EPERM)

        if fields.update_mode:
""")], 'several attributes of an immutable file are set in one request, the access time among them',
     'immutable files can be truncated and changed', """
from fsh import *

async def main():
    async with filesystem() as h:
        d = await h.mkdir(b'd')
        i = await h.mkfile(b'f', b'hello', d)
        await h.fs.lock_tree(d)
        try:
            await h.fs.setattr(i, Attr(st_atime_ns=5, st_size=0), Fields(update_atime=True, update_size=True), None, CTX)
        except FUSEError:
            pass
        else:
            raise AssertionError('immutable file was changed')

run(main)
""")

seed('f05-last-block-kept', 'F05', [(F, """                inode = self.inodes[id_]
                if inode.refcount == 0:
                    await self._purge_inode(id_, inode.size)""",
     """                inode = self.inodes[id_]
                if inode.refcount == 0:
                    await self._purge_inode(id_, max(inode.size - 1, 0))""")],
     'a file whose size is one more than a multiple of the block size is deleted while it is open and then closed',
     'its last block is never deleted', """
from fsh import *

async def main():
    async with filesystem() as h:
        i = await h.mkfile(b'f', b'x' * 1024)
        await h.fs.write(i, 1024, b'y')
        await h.cache.drop()
        await h.fs.unlink(ROOT_INODE, b'f', CTX)
        try:
            await h.fs.forget([(i, 1)])
        except Exception as exc:
            print(repr(exc))
        n = h.db.get_int_val('SELECT COUNT(*) FROM inode_blocks')
        assert n == 0, n

run(main)
""")

seed('f11-attribute-overwritten', 'F11', [(F, """                    (id_, self._add_name(name), value),
                )
            self.inodes[id_].ctime_ns = time_ns()
""", """                    (id_, self._add_name(name), value),
                )
                self.inodes[id_].ctime_ns = time_ns()
""")], 'an extended attribute that exists is given another value', 'the change time of the file is not updated', """
from fsh import *

async def main():
    async with filesystem() as h:
        i = await h.mkfile(b'a')
        await h.fs.setxattr(i, b'user.x', b'1', CTX)
        old = (await h.fs.getattr(i, CTX)).st_ctime_ns
        await trio.sleep(0.02)
        await h.fs.setxattr(i, b'user.x', b'2', CTX)
        assert (await h.fs.getattr(i, CTX)).st_ctime_ns > old

run(main)
""")

seed('f12-two-links', 'F12', [(F, """                            if inode.refcount != 1:
                                id_cache[id_] = id_new
""", """                            if inode.refcount != 1 and inode.size:
                                id_cache[id_] = id_new
""")], 'the tree contains a symbolic link, fifo or empty file with two hard links', 'the copies are different files', """
from fsh import *

async def main():
    no_invalidate()
    async with filesystem() as h:
        a = await h.mkdir(b'src')
        b = await h.mkdir(b'dst')
        i = await h.mkfile(b'f', b'', a)
        await h.fs.link(i, a, b'g', CTX)
        await h.fs.copy_tree(a, b)
        x = await h.fs.lookup(b, b'f', CTX)
        y = await h.fs.lookup(b, b'g', CTX)
        assert x.st_ino == y.st_ino and x.st_nlink == 2

run(main)
""")

seed('f10-resume-position', 'F10', [(F, """            (id_, off - 3),
        ) as res:
""", """            (id_, off - 3 if off < 1000 else off - 2),
        ) as res:
""")], 'a listing that is continued behind an entry whose name has a number above 997', 'an entry is left out', """
from fsh import *

async def main():
    async with filesystem() as h:
        h.db.execute('INSERT INTO names (id, name, refcount) VALUES (2000, ?, 1)', (b'zz',))
        names = [b'f%02d' % i for i in range(20)]
        for n in names:
            await h.mkfile(n)
        got = []
        off = [0]
        def reply(token, name, attr, next_):
            if n_[0] == 0:
                return False
            n_[0] -= 1
            got.append(name)
            off[0] = next_
            return True
        fs.pyfuse3.readdir_reply = reply
        fh = await h.fs.opendir(ROOT_INODE, CTX)
        while True:
            n_ = [1]
            before = len(got)
            await h.fs.readdir(fh, off[0], None)
            if len(got) == before:
                break
        assert [x for x in got if x in names] == names, got

run(main)
""")

seed('f13-link-into-removed', 'F13', [(F, """        if inode_p.refcount == 0:
            log.warning('Attempted to create entry %s with unlinked parent %d', new_name, new_id_p)
""", """        if inode_p.refcount == 0 and new_id_p not in self.open_inodes:
            log.warning('Attempted to create entry %s with unlinked parent %d', new_name, new_id_p)
""")], 'a link that is created in a directory that has been removed but is still open', 'the link has no path from the root directory', """
from fsh import *

async def main():
    async with filesystem() as h:
        d = await h.mkdir(b'd')
        f = await h.mkfile(b'f')
        await h.fs.rmdir(ROOT_INODE, b'd', CTX)
        try:
            await h.fs.link(f, d, b'g', CTX)
        except FUSEError:
            pass
        n = h.db.get_val('SELECT COUNT(*) FROM contents WHERE parent_inode=?', (d,))
        assert n == 0, 'entry in a removed directory'

run(main)
""")

seed('f13-flush-before-rename', 'F13', [(F, """            if target_exists:
                await self._replace(""", """            # Get data into the backend under its final name
            await self.cache.start_flush(id_old)
            if target_exists:
                await self._replace(""")], 's3qlrm removes the source of a rename while the rename waits for the cache', 'the rename ends in a missing row', """
from fsh import *
import trio

async def main():
    async with filesystem() as h:
        d = await h.mkdir(b'd')
        await h.mkfile(b'f', b'x' * 3000, d)
        bad = []
        async def move():
            try:
                await h.fs.rename(d, b'f', ROOT_INODE, b'g', 0, CTX)
            except FUSEError:
                pass
            except Exception as e:
                bad.append(repr(e))
        async def rm():
            await trio.sleep(0)
            try:
                await h.fs.remove_tree(ROOT_INODE, b'd')
            except FUSEError:
                pass
            except Exception as e:
                bad.append(repr(e))
        real = h.fs.cache.start_flush
        async def slow(*a, **kw):
            await trio.sleep(0.2)
            return await real(*a, **kw)
        h.fs.cache.start_flush = slow
        async with trio.open_nursery() as n:
            n.start_soon(move)
            n.start_soon(rm)
        assert not bad, bad

run(main)
""")
