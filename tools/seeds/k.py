K = 'src/s3ql/fsck.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('k01-own-parent-not-counted', 'K01', [(K, """            self.found_errors = True

            # Try obvious culprits first
""", """            # Try obvious culprits first
"""), (K, """            except NoSuchRowError:
                inode = self.conn.get_inode_val(
                    "SELECT inode FROM loopcheck2""", """            except NoSuchRowError:
                self.found_errors = True
                inode = self.conn.get_inode_val(
                    "SELECT inode FROM loopcheck2""")], 'a directory that is its own parent', 'the repair is not counted as an error', """
from fsh import *

async def main():
    async with filesystem() as h:
        d = await h.mkdir(b'd')
        await h.mkdir(b'sub', d)
        await h.cache.drop()
        h.fs.inodes.flush()
        h.db.execute('UPDATE contents SET parent_inode=? WHERE inode=?', (d, d))
        h.fs.inodes.drop()
        await h.fsck()
        assert h.errors, 'not reported'

run(main)
""")

seed('k02-refcount-too-low-only', 'K02', [(K, """                WHERE inodes.refcount != refcounts.refcount
                   OR %(dbf)srefcounts.refcount IS NULL\'\'\'
""", """                WHERE inodes.refcount < refcounts.refcount
                   OR %(dbf)srefcounts.refcount IS NULL\'\'\'
""")], 'a file whose link count is higher than the number of its entries', 'the wrong count is not corrected', """
from fsh import *

async def main():
    async with filesystem() as h:
        f = await h.mkfile(b'f', b'x' * 100)
        await h.fs.link(f, ROOT_INODE, b'g', CTX)
        await h.cache.drop()
        h.fs.inodes.flush()
        h.db.execute('UPDATE inodes SET refcount=5 WHERE id=?', (f,))
        h.fs.inodes.drop()
        await h.fsck()
        n = h.db.get_val('SELECT refcount FROM inodes WHERE id=?', (f,))
        assert n == 2, n

run(main)
""")

seed('k03-orphans-without-data', 'K03', [(K, """                self.found_errors = True
                if cnt is None:
                    (id_p, name)""", """                self.found_errors = True
                if cnt is None and not self.conn.has_val(
                    'SELECT 1 FROM inode_blocks WHERE inode=?', (id_,)
                ):
                    # No data to be saved
                    self.log_error('Inode %d not referenced, deleting', id_)
                    self.conn.execute('DELETE FROM inodes WHERE id=?', (id_,))

                elif cnt is None:
                    (id_p, name)""")], 'an unreferenced symbolic link or directory', 'the link is lost', """
from fsh import *

async def main():
    async with filesystem() as h:
        a = await h.fs.symlink(ROOT_INODE, b'l', b'/some/target', CTX)
        await h.cache.drop()
        h.fs.inodes.flush()
        h.db.execute('DELETE FROM contents WHERE inode=?', (a.st_ino,))
        h.fs.inodes.drop()
        await h.fsck()
        assert h.db.has_val('SELECT 1 FROM contents WHERE inode=?', (a.st_ino,)), 'link lost'
        assert h.db.get_val('SELECT target FROM symlink_targets WHERE inode=?', (a.st_ino,)) == b'/some/target'

run(main)
""")

seed('k04-name-without-suffix', 'K04', [(K, """        if len(name) > 255 - 4:
""", """        if len(name) > 255:
""")], 'a name of about 254 bytes that exists already in lost+found', 'a name of more than 255 bytes is stored', """
from fsh import *
from s3ql.common import inode_for_path

async def main():
    async with filesystem() as h:
        await h.fsck()
        lof = inode_for_path(b'/lost+found', h.db)
        n = b'x' * 254
        await h.mkfile(n, b'', lof)
        await h.cache.drop()
        h.fs.inodes.flush()
        f = Fsck(h.cachedir, h.backend, FsAttributes(data_block_size=1024, metadata_block_size=1024), h.db)
        (p, new) = f.resolve_free(b'/lost+found', n)
        assert len(new) <= 255 and new != n, len(new)

run(main)
""")
