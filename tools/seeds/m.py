D = 'src/s3ql/database.py'
X = 'src/s3ql/_sqlite3ext.cpp'
I = 'src/s3ql/inode_cache.py'
M = 'src/s3ql/mount.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


META = '''
import itertools
from s3ql.database import *
from s3ql import database, sqlite3ext

async def store():
    tmp = tempfile.mkdtemp(prefix='s3ql-demo-')
    os.mkdir(tmp + '/backend')
    raw = await local.AsyncBackend.create(storage_url='local://' + tmp + '/backend', backend_options={})
    return tmp, await AsyncComprencBackend.create(b'pw', CompressSpec(algorithm=CompressAlgorithm.ZLIB, level=6), raw)

async def names(backend, prefix=''):
    return sorted([o async for o in backend.list(prefix)])
'''

seed('m03-sync-before-flush', 'M03', [(D, '''        fh.flush()
        os.fsync(fh.fileno())

    # we need''', '''        os.fsync(fh.fileno())
        fh.flush()

    # we need''')], 'the system crashes right after the local record was replaced',
     'the record that replaced the old one was never forced to disk: it is empty after the crash', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    open(tmp + '/x.db', 'w').close()
    write_params(tmp + '/x', FsAttributes(1024, 1024, seq_no=1))
    on_disk = {}
    real = os.fsync, os.rename, os.replace

    def fsync(fd):
        path = os.readlink('/proc/self/fd/%d' % fd)
        if os.path.isfile(path):
            on_disk[path] = open(path, 'rb').read()
        real[0](fd)

    def rename(a, b):
        content = on_disk.get(os.path.realpath(a), b'')
        assert FsAttributes.deserialize(content).seq_no == 2, 'replaced by a file that is not on disk'
        real[1](a, b)
    os.fsync, os.rename, os.replace = fsync, rename, rename
    write_params(tmp + '/x', FsAttributes(1024, 1024, seq_no=2))
    shutil.rmtree(tmp)

run(main)
''')

seed('m03-one-remote-record', 'M03', [(D, '''    await backend.store('s3ql_params', buf)
    await backend.store('s3ql_params_%010x' % params.seq_no, buf)
''', '''    await backend.store('s3ql_params', buf)
    if params.needs_fsck or not params.is_mounted:
        await backend.store('s3ql_params_%010x' % params.seq_no, buf)
''')], 'the file system crashes while it is mounted for the first time since a check',
     'the version-numbered record of the version that is in use is missing', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    for p in (FsAttributes(1024, 1024, seq_no=1), FsAttributes(1024, 1024, seq_no=2, is_mounted=True), FsAttributes(
            1024, 1024, seq_no=3, is_mounted=True, needs_fsck=True)):
        await upload_params(backend, p)
        assert await read_remote_params(backend) == p
        assert await read_remote_params(backend, p.seq_no) == p
    shutil.rmtree(tmp)

run(main)
''')

seed('m04-one-version-behind', 'M04', [(D, '''        if min_seq is not None and d['seq_no'] < min_seq:
            raise OutdatedData()
''', '''        if min_seq is not None and d['seq_no'] + int(d['is_mounted']) < min_seq:
            raise OutdatedData()
''')], 'the local copy is from a mount that crashed, one version before the current one',
     'the outdated local copy is taken as current', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    open(tmp + '/x.db', 'w').close()
    for mounted in (False, True):
        write_params(tmp + '/x', FsAttributes(1024, 1024, seq_no=7, is_mounted=mounted))
        assert read_cached_params(tmp + '/x', min_seq=7) is not None
        assert read_cached_params(tmp + '/x', min_seq=8) is None, 'outdated copy accepted'
    shutil.rmtree(tmp)

run(main)
''')

seed('m06-truncated-last-block', 'M06', [(X, '''        if (*it <= blockno) {
''', '''        if (*it < blockno) {
''')], 'the database file is cut within a block that has changed',
     'the change of the last block is forgotten and never uploaded', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    bs = 64 * 1024
    db = Connection(tmp + '/x.db', bs)
    db.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, x BLOB)')
    for i in range(100):
        db.execute('INSERT INTO t (x) VALUES (zeroblob(5000))')
    db.sync_checkpoint()
    p = FsAttributes(1024, bs, seq_no=1)
    await upload_metadata(backend, db, p, incremental=False)
    while True:
        try:
            db.dirty_blocks.get_block()
        except KeyError:
            break
    for n in (60, 43, 21, 7):
        db.execute('DELETE FROM t WHERE id > ?', (n,))
        db.execute("UPDATE t SET x = randomblob(5000)")
        db.sync_checkpoint()
        db.execute('VACUUM')
        db.sync_checkpoint()
        p.seq_no += 1
        await upload_metadata(backend, db, p)
        down = await download_metadata(backend, tmp + '/down%d.db' % n, p)
        assert down.get_list('SELECT * FROM t') == db.get_list('SELECT * FROM t')
        down.close()
    db.close()
    shutil.rmtree(tmp)

run(main)
''')

seed('m06-write-across-blocks', 'M06', [(X, '''    for (size_t blockno = iOfst / blocksize;
        blockno < max_blockno;
        blockno++) {
        p->block_map->insert(blockno);
    }
''', '''    size_t step = (size_t)iAmt > blocksize ? (size_t)iAmt / blocksize : 1;
    for (size_t blockno = iOfst / blocksize;
        blockno < max_blockno;
        blockno += step) {
        p->block_map->insert(blockno);
    }
''')], 'the blocks are smaller than the pages of the database', 'only the first of the changed blocks is uploaded', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    for bs in (1024,):
        f = tmp + '/x%d.db' % bs
        db = Connection(f, bs)
        db.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, x BLOB)')
        for i in range(50):
            db.execute('INSERT INTO t (x) VALUES (randomblob(3000))')
        db.sync_checkpoint()
        size = db.get_size()
        found = set()
        while True:
            try:
                found.add(db.dirty_blocks.get_block())
            except KeyError:
                break
        missing = set(range((size + bs - 1) // bs)) - found
        assert not missing, (bs, sorted(missing))
        db.close()
    shutil.rmtree(tmp)

run(main)
''')

seed('m07-rest-of-old-copy', 'M07', [(D, '''        with open(self.db_file, 'w+b', buffering=0):
            pass
''', '''        with open(self.db_file, 'a+b', buffering=0) as fh:
            if fh.tell() > self.params.db_size:
                fh.truncate(self.params.db_size)
''')], 'metadata is downloaded in emergency mode over a longer old copy and one of its blocks is missing',
     'the result contains a block of the old copy', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    bs = 1024
    for b, seq in ((0, 1), (2, 1), (1, 2)):
        await backend.store(METADATA_OBJ_NAME % (b, seq), bytes([65 + b]) * bs)
    await backend.delete(METADATA_OBJ_NAME % (1, 2))
    with open(tmp + '/x.db', 'wb') as fh:
        fh.write(b'old ' * 2000)
    op = DownloadMetadata(backend=backend, db_file=tmp + '/x.db', params=FsAttributes(bs, bs, seq_no=2, db_size=3 * bs), failsafe=True)
    await op.run(n_workers=2)
    got = open(tmp + '/x.db', 'rb').read()
    assert got.rstrip(bytes(1)) == b'A' * bs + bytes(bs) + b'C' * bs, 'contains old data'
    shutil.rmtree(tmp)

run(main)
''')

seed('m08-partial-last-block', 'M08', [(D, '''        max_blockno = math.ceil(params.db_size / blocksize) - 1

        for''', '''        max_blockno = params.db_size // blocksize - 1

        for''')], 'the size of the database is not a multiple of the block size',
     'the last block of every version is deleted', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    bs = 1024
    for size in (3 * bs, 3 * bs + 1, 4 * bs - 1):
        p = FsAttributes(bs, bs, seq_no=9, db_size=size)
        await upload_params(backend, p)
        for b in range(-(-size // bs)):
            await backend.store(METADATA_OBJ_NAME % (b, 9), b'x' * bs)
        before = await names(backend, 's3ql_metadata_')
        await expire_objects(backend)
        assert await names(backend, 's3ql_metadata_') == before
    shutil.rmtree(tmp)

run(main)
''')

seed('m08-rest-of-version', 'M08', [(D, '''            to_keep[blockno].add(first_le_than(candidates, seq_no))

    # Remove''', '''            try:
                to_keep[blockno].add(first_le_than(candidates, seq_no))
            except ValueError:
                log.warning('Version %x of block %d is missing', seq_no, blockno)
                break

    # Remove''')], 'one block of an old version has been lost', 'the other blocks of that version are deleted as well', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    bs = 1024
    for seq in (3, 4):
        await upload_params(backend, FsAttributes(bs, bs, seq_no=seq, db_size=8 * bs))
        for b in range(8):
            if (b, seq) != (3, 3):
                await backend.store(METADATA_OBJ_NAME % (b, seq), b'x' * bs)
    before = await names(backend, 's3ql_metadata_')
    try:
        await expire_objects(backend)
    except ValueError:
        pass
    assert await names(backend, 's3ql_metadata_') == before
    shutil.rmtree(tmp)

run(main)
''')

seed('m11-flush-after-wrap', 'M11', [(I, '''        # We don't want to use dict.itervalues() since
        # the dict may change while we iterate
        for i in range(len(self.cached_rows)):
            id_ = self.cached_rows[i]
''', '''        # We don't want to use dict.itervalues() since
        # the dict may change while we iterate
        for i in range(self.pos if self.pos else len(self.cached_rows)):
            id_ = self.cached_rows[i]
''')], 'more inodes were used than fit into the attribute cache before the one that is changed',
     'a flush does not write back all changed attributes', '''
from fsh import *
from s3ql import inode_cache

async def main():
    inode_cache.CACHE_SIZE = 10
    async with filesystem() as h:
        ids = [await h.mkfile(b'f%d' % i) for i in range(17)]
        for i in ids:
            await h.fs.setattr(i, Attr(st_mode=REG | 0o111), Fields(update_mode=True), None, CTX)
        h.fs.inodes.flush()
        got = h.db.get_list('SELECT DISTINCT mode FROM inodes WHERE id IN (%s)' % ','.join(str(i) for i in ids))
        assert len(got) == 1, got

run(main)
''')

seed('m12-wait-in-transaction', 'M12', [(D, '''        self.conn.execute('COMMIT')
        self.in_tx = False
        await self.conn.checkpoint()
''', '''        await self.conn.checkpoint()
        self.conn.execute('COMMIT')
        self.in_tx = False
''')], 'a metadata backup blocks writes when a batch of a long operation ends',
     'the transaction stays open while other operations run: their changes become part of it', '''
from fsh import *
''' + META + '''
async def main():
    tmp, backend = await store()
    db = Connection(tmp + '/x.db', 4096)
    db.execute('CREATE TABLE t (x)')
    db.close()
    db = Connection(tmp + '/x.db', 4096)
    done = []

    async def batch():
        async with db.batch(0.1) as b:
            db.execute('INSERT INTO t VALUES (1)')
            await b.finish_batch(1)
            await b.start_batch()
        done.append(1)

    async with trio.open_nursery() as n:
        async with db.inhibit_writes():
            n.start_soon(batch)
            for _ in range(10):
                await trio.lowlevel.checkpoint()
            assert db.conn.getautocommit(), 'transaction open while another task runs'
    assert done
    db.close()
    shutil.rmtree(tmp)

run(main)
''')

seed('m05-same-version-again', 'M05', [(M, '''                write_params(self.cachepath, self.params)
                await upload_params(self.backend, self.params)

                # Write a new params file immediately, so that we're in the same state as right
                # after mounting and there is no window where we could have metadata_* objects
                # with a sequence number for which there is no corresponding s3ql_params_*
                # object.
                self.params.seq_no += 1
''', '''                write_params(self.cachepath, self.params)
                await upload_params(self.backend, self.params)

                # Write a new params file immediately, so that we're in the same state as right
                # after mounting and there is no window where we could have metadata_* objects
                # with a sequence number for which there is no corresponding s3ql_params_*
                # object.
                if self.metadata_backup_interval:
                    self.params.seq_no += 1
''')], 'backups are made on request only (no interval is set)', 'the next backup overwrites blocks of the published version', '''
from fsh import *
''' + META + '''
from s3ql.mount import MetadataUploadTask

async def main():
    tmp, backend = await store()
    db = Connection(tmp + '/x.db', 4096)
    db.execute('CREATE TABLE t (x)')
    db.close()
    db = Connection(tmp + '/x.db', 4096)
    for interval in (1000, None):
        p = FsAttributes(1024, 4096, seq_no=5, is_mounted=True)
        task = MetadataUploadTask(p, backend, db, metadata_backup_interval=interval, cachepath=tmp + '/x')
        task.fs = type('F', (), {'failsafe': False})()
        async with trio.open_nursery() as n:
            n.start_soon(task.run)
            for k in range(3):
                db.execute('INSERT INTO t VALUES (?)', (k,))
                last = p.seq_no
                task.event.set()
                with trio.move_on_after(10):
                    while task.event.is_set() or db._inhibit_writes_event is not None:
                        await trio.sleep(0.02)
                await trio.sleep(0.3)
                assert p.seq_no > last, (interval, p.seq_no, last)
            task.stop()
    db.close()
    shutil.rmtree(tmp)

run(main)
''')
