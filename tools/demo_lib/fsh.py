'''Small harness for demonstrations: a file system instance (no FUSE mount) in a scratch directory.'''
import asyncio  # noqa: F401
import contextlib
import logging
import os
import random
import shutil
import stat
import sys
import tempfile

REPO = os.getcwd()
sys.path.insert(0, os.path.join(REPO, 'src'))
if os.environ.get('FSH_DEBUG'):
    logging.basicConfig(level=logging.DEBUG)
else:
    logging.disable(logging.CRITICAL)

import pyfuse3
import trio
from pyfuse3 import FUSEError

from s3ql import ROOT_INODE, fs
from s3ql.backends import local
from s3ql.backends.common import CorruptedObjectError, NoSuchObject
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.authinfo import CompressAlgorithm, CompressSpec
from s3ql.block_cache import BlockCache
from s3ql.database import Connection, FsAttributes, create_tables
from s3ql.fsck import Fsck
from s3ql.inode_cache import InodeCache
from s3ql.mkfs import init_tables


class Ctx:
    uid = 0
    gid = 0
    pid = 1
    umask = 0


class Fields:
    def __init__(self, **kw):
        for n in ('atime', 'mtime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + n, False)
        self.__dict__.update(kw)


class Attr:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class InlineUpload:
    def __init__(self, cache):
        self.cache = cache

    async def send(self, arg):
        await self.cache._do_upload(*arg)

    async def aclose(self):
        pass


class InlineRemove:
    def __init__(self, cache):
        self.cache = cache

    async def send(self, obj_id):
        try:
            await self.cache.backend.delete('s3ql_data_%d' % obj_id)
        except NoSuchObject:
            self.cache.fs.failsafe = True

    async def aclose(self):
        pass


class TaskUpload(InlineUpload):
    '''Uploads run as tasks of their own.'''

    def __init__(self, cache, nursery):
        self.cache = cache
        self.nursery = nursery

    async def send(self, arg):
        self.nursery.start_soon(self.cache._do_upload, *arg)


CTX = Ctx()
REG = stat.S_IFREG | 0o644
DIR = stat.S_IFDIR | 0o755


@contextlib.asynccontextmanager
async def filesystem(blk=1024, cache_size=1024 * 50, nursery=None, passphrase=b'pw', compress=None):
    tmp = tempfile.mkdtemp(prefix='s3ql-demo-')
    h = type('H', (), {})()
    h.tmp = tmp
    h.backend_dir = tmp + '/backend'
    h.cachedir = tmp + '/cache'
    os.mkdir(h.backend_dir)
    os.mkdir(h.cachedir)
    h.plain = await local.AsyncBackend.create(storage_url='local://' + h.backend_dir, backend_options={})
    h.backend = await AsyncComprencBackend.create(passphrase, compress or CompressSpec(algorithm=CompressAlgorithm.ZLIB, level=6), h.plain)
    h.blk = blk
    h.db = Connection(tmp + '/db.sqlite')
    create_tables(h.db)
    init_tables(h.db)
    h.cache = BlockCache(h.backend, h.db, h.cachedir, cache_size, upload_send=None, remove_send=None)
    h.fs = fs.Operations(h.cache, h.db, blk, InodeCache(h.db, 0))
    h.fs.init() if hasattr(h.fs, 'init') else None
    h.cache.fs = h.fs
    h.cache._upload_send = TaskUpload(h.cache, nursery) if nursery else InlineUpload(h.cache)
    h.cache._remove_send = InlineRemove(h.cache)

    async def mkfile(name, data=b'', parent=ROOT_INODE):
        fi, attr = await h.fs.create(parent, name, REG, os.O_RDWR, CTX)
        if data:
            await h.fs.write(fi.fh, 0, data)
        return attr.st_ino
    h.mkfile = mkfile

    async def mkdir(name, parent=ROOT_INODE):
        return (await h.fs.mkdir(parent, name, DIR, CTX)).st_ino
    h.mkdir = mkdir

    async def fsck():
        '''Run a check on the current metadata; returns True if it is consistent.'''
        await h.cache.drop()
        h.fs.inodes.flush()
        f = Fsck(h.cachedir, h.backend, FsAttributes(data_block_size=blk, metadata_block_size=blk), h.db)
        await f.check()
        h.errors = f.found_errors
        return not f.found_errors
    h.fsck = fsck
    try:
        yield h
    finally:
        with contextlib.suppress(BaseException):
            h.fs.inodes.destroy()
        with contextlib.suppress(BaseException):
            for el in list(h.cache.cache.values()):
                h.cache.cache.remove((el.inode, el.blockno))
        with contextlib.suppress(BaseException):
            h.db.close()
        shutil.rmtree(tmp, ignore_errors=True)


def no_invalidate():
    '''Kernel notifications need a mounted file system.'''
    pyfuse3.invalidate_inode = lambda *a, **k: None
    pyfuse3.invalidate_entry_async = lambda *a, **k: None
    fs.pyfuse3.invalidate_inode = lambda *a, **k: None


def run(main):
    try:
        trio.run(main)
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(1)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
