#!/usr/bin/env python3
'''Regenerate /verif/properties.jsonl from the table below (authoring aid only).'''
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            'id': id,
            'title': title,
            'statement': statement,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why,
            'anchors': {
                'files': ['src/s3ql/' + f if not f.startswith(('contrib', 'src')) else f for f in files],
                'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                'mechanism': [dict(name=a, where='src/s3ql/' + b if not b.startswith(('contrib', 'src')) else b) for a, b in mech],
                'observe_at': list(observe),
                'hook_needed': None,
            },
        }
    )


SCHED = ['schedules', 'fault_sequences']

# ---------------------------------------------------------------- block cache
p('B01', 'Block locks are always released, exactly once',
  'Whoever locks a cached block for reading, writing, upload, eviction or removal releases it exactly once on every way out, including backend errors and cancellation, or hands it to the upload job, which in turn releases it exactly once. The cached block itself is only used while its lock is held, and a lock is granted to at most one task at a time.',
  SCHED, 'all interleavings of readers, writers, uploads, evictions and removals, with any operation failing at any point',
  'The cache tests run a few fixed interleavings with one or two induced failures; a leaked lock needs a specific exit at a specific await.',
  ['block_cache.py', 'multi_lock.py'],
  [('MultiLock.acquire/release', 'multi_lock.py'), ('BlockCache.upload_if_dirty hand-off to _do_upload', 'block_cache.py'), ('get/evict/remove lock sections', 'block_cache.py')])
p('B02', 'Modified cache blocks are never dropped before they are uploaded',
  'A cached block that holds data not yet stored in the backend is never removed from the cache or deleted from disk, except when that block of the file is itself being deleted. Any decision to drop a block is re-validated after every point at which another task could have run, and every modification of a block marks it as needing upload again.',
  SCHED, 'all interleavings of writers with expiry, flush, drop, unmount and failed uploads',
  'Tests never write to a block in the window between its upload and its eviction for every possible await point.',
  ['block_cache.py'],
  [('BlockCache.evict re-check', 'block_cache.py'), ('CacheEntry.write/truncate set dirty', 'block_cache.py'), ('destroy keeps dirty files', 'block_cache.py')])
p('B03', 'Upload outcome and block state agree',
  'A block is considered stored only after its object was written successfully (or found to exist already), and a failed or cancelled upload leaves the block marked as modified, with the failed object never used again for de-duplication. In every outcome the block stops being marked as being uploaded and everybody waiting for that upload is woken up.',
  SCHED, 'every upload outcome: success, backend error, cancellation, error while hashing',
  'Only one failing-backend test exists; the states after each individual failure point are not enumerated.',
  ['block_cache.py'],
  [('_do_upload success/failure/finally paths', 'block_cache.py'), ('upload_if_dirty in-transit handling', 'block_cache.py'), ('_get_entry waits for in-flight upload', 'block_cache.py')])
p('B04', 'An upload is recorded in metadata before the object is sent',
  'Before a new object is handed over for upload, the metadata already contains the object with a reference count, its hash, and the link from the file block to it, and the upload is registered as in flight; no other task can run between the lookup of an existing identical object and these steps. So no two objects with the same content are created by concurrent writers and no uploaded object is unknown to the metadata.',
  ['schedules', 'crash_points'], 'all interleavings and crash points around the start of an upload',
  'A crash or task switch inside the window is not reachable from a unit test.',
  ['block_cache.py'],
  [('upload_if_dirty: lookup, INSERT, registration, send', 'block_cache.py')])
p('B05', 'Object reference counts follow every change of a file block',
  'Whenever a file block starts to refer to a stored object that object\'s reference count goes up by one, and whenever a block stops referring to it the count goes down by one, on every path that rewrites, de-duplicates, truncates, deletes or copies blocks. Releasing the previous object never happens before the block refers to the new one.',
  ['histories', 'schedules'], 'all histories of write, truncate, delete, copy and de-duplication',
  'Tests check the count after a handful of short histories; balance has to hold on every path.',
  ['block_cache.py', 'fs.py'],
  [('upload_if_dirty re-link', 'block_cache.py'), ('remove/_deref_obj', 'block_cache.py'), ('copy_tree object refcounts', 'fs.py')])
p('B06', 'Backend objects are deleted only when nothing can refer to them',
  'An object is removed from the backend only after its reference count reached zero and its metadata row was deleted, and never while an upload of that object is still running; objects whose upload failed are not deleted from the backend. A missing object during removal is recorded as damage instead of being ignored or crashing the file system.',
  SCHED, 'all interleavings of uploads, overwrites and deletions of blocks sharing one object',
  'The dangerous schedules (delete while the shared object is in flight) are not produced by tests.',
  ['block_cache.py', 'fsck.py'],
  [('_deref_obj', 'block_cache.py'), ('_removal_task', 'block_cache.py'), ('fsck unlinked_objects/orphan handling', 'fsck.py')])
p('B07', 'Cache files appear under their final name only when complete',
  'A block downloaded into the local cache becomes visible under its final name only after it was completely received, verified by the backend layer and forced to disk; on any error the partial file is removed and no cache entry is created. A block whose object is still being uploaded is not read from the backend before that upload has finished. Files already in the cache when it is opened keep their contents and belong to the block that their name says.',
  ['crash_points', 'fault_sequences'], 'every failure or crash point of a block download',
  'Crash points inside the download are not exercised by tests.',
  ['block_cache.py'],
  [('BlockCache._get_entry', 'block_cache.py')])
p('B08', 'Cache size accounting matches the cached data',
  'The recorded cache size changes by exactly the size change of the blocks on every path: when blocks are created, written, truncated, downloaded, evicted, dropped or deleted, and also when the operation using the block fails. The limit on cached data and entries is enforced before new blocks are added. The size and position remembered for a cached block are always those of its file.',
  ['histories', 'fault_sequences'], 'all histories of cache operations including failing ones',
  'A drift of the counter after an exception or resize is only visible after long histories.',
  ['block_cache.py'],
  [('BlockCache.get finally', 'block_cache.py'), ('CacheDict.remove', 'block_cache.py'), ('evict limits', 'block_cache.py')])
p('B10', 'Writes to local files are complete or fail',
  'Data that is written to a cache file, a downloaded database or a stored object on the local disk is written completely or the operation fails: an incomplete write, as happens on a full disk, is never taken for a success, on buffered as well as on unbuffered files.',
  ['fault_sequences'], 'all writes to local files, with every write possibly accepting only a part of the data',
  'Short writes happen on full disks, quotas and limits only; no test provokes one.',
  ['block_cache.py', 'database.py', 'backends/local.py', 'common.py'],
  [('CacheEntry.write', 'block_cache.py'), ('download_metadata', 'database.py')])
p('B09', 'Reads return the bytes last written',
  'Reading any range of a file returns exactly the bytes most recently written to that range, with unwritten ranges reading as zeros, regardless of block boundaries, cache state or intervening uploads.',
  ['inputs', 'histories'], 'all offsets, lengths, block sizes and histories',
  'Only sampled offsets and sizes are tested.',
  ['fs.py', 'block_cache.py'], [('_readwrite splitting', 'fs.py')])

# ---------------------------------------------------------------- file system semantics
p('F01', 'Read-only state and immutability block every modification',
  'Once the file system has switched to its emergency read-only state, or when the file or directory concerned is locked as immutable, every request that would change file data, attributes, names or directory contents is refused with a permission error before anything is changed. This holds for every modifying request type, not only for writes.',
  ['histories', 'inputs'], 'all request types in all states',
  'Tests try a few request types on one locked tree; the guard has to be on every path of every handler.',
  ['fs.py'], [('failsafe and locked checks in the request handlers', 'fs.py')])
p('F02', 'Shared name records are counted exactly',
  'Names of files and extended attributes are stored once and counted: each directory entry or attribute that starts using a name increases its count by one, each that stops using it decreases it by one, and a name is deleted only when its last user is gone. This holds for creating, linking, renaming, replacing, copying and removing entries and for setting, overwriting and removing attributes, successful or not.',
  ['histories', 'inputs'], 'all histories of namespace and attribute operations',
  'Tests run fsck after short histories; error outcomes (attribute missing, target exists) are not all followed by a consistency check.',
  ['fs.py', 'fsck.py'], [('_add_name/_del_name', 'fs.py')])
p('F03', 'Link counts match directory entries',
  'The link count of a file or directory changes by exactly one with every directory entry that is created for or removed from it; a new object starts with a count of one together with its entry. Renaming keeps the count of the moved object and releases the replaced one.',
  ['histories', 'inputs'], 'all histories of create, link, unlink, rename, exchange and tree operations',
  'Only a few histories are checked against the metadata consistency checker.',
  ['fs.py'], [('_create, link, _remove, _replace, _rename, copy_tree', 'fs.py')])
p('F04', 'Kernel references to files are counted exactly',
  'Every reply that makes the kernel remember a file adds one to that file\'s count of kernel references, internal look-ups are given back on every outcome including errors, and forget requests subtract what the kernel reports. A file that is still referenced by the kernel is never purged, and a file that is neither linked nor referenced is.',
  ['histories', 'schedules'], 'all request histories including failing requests',
  'The count is internal and only matters many operations later.',
  ['fs.py'], [('open_inodes accounting in lookup/create/readdir/forget', 'fs.py')])
p('F05', 'Deleting a file removes everything that belongs to it',
  'When the last link and the last kernel reference to a file are gone, its cached blocks, stored blocks, extended attributes with their names, symbolic link target and attributes are all removed, whichever of unlink, rmdir, rename-over, forget or unmount comes last, for files of any size: the work is in proportion to the data that exists, not to the size of a sparse file. Nothing is removed while a link or a kernel reference remains.',
  ['histories', 'schedules'], 'all orders of unlink, close, forget, rename-over and unmount',
  'Tests check single orders; each table has to be cleaned on every path.',
  ['fs.py'], [('forget/_remove/_replace/destroy purge paths', 'fs.py'), ('_purge_inode', 'fs.py')])
p('F06', 'Attribute changes are never written to a stale copy',
  'A request handler changes the attributes of a file only on the current in-memory copy: after any point where another task could have run or another file was looked up, the copy is fetched again before it is changed. Therefore no size, time or link count update is lost, however many files are in use.',
  ['schedules', 'histories'], 'all interleavings with more files in use than the attribute cache holds',
  'Needs more than a hundred files touched in one particular window.',
  ['fs.py', 'inode_cache.py'], [('InodeCache get/evict', 'inode_cache.py'), ('handlers re-fetch inode', 'fs.py')])
p('F07', 'Missing or damaged data becomes an I/O error and read-only mode',
  'If a request needs file data whose object is missing or damaged in the backend, the caller gets an I/O error, the damage is recorded, and the file system switches to its emergency read-only state; the request does not crash the file system and never returns invented data. This holds for every kind of request that touches file contents.',
  ['fault_sequences', 'inputs'], 'all requests touching data, with any object missing or damaged',
  'Only reading a damaged file is tested.',
  ['fs.py', 'block_cache.py', 'mount.py'], [('_readwrite/setattr error mapping', 'fs.py')])
p('F08', 'Control requests are parsed safely and agree with the tools',
  'Requests sent through the control file are accepted only for the control file, their arguments are parsed as plain literals of the expected types, and malformed requests are rejected with an error code without side effects. Every command the command line tools send is understood by the file system with the same name and argument layout, and statistics are packed and unpacked with the same layout.',
  ['inputs', 'programs'], 'all control requests, well-formed or not',
  'Tool and file system are tested with one good request each, in FUSE tests that cannot run here.',
  ['fs.py', 'ctrl.py', 'cp.py', 'lock.py', 'remove.py', 'umount.py', 'statfs.py', 'common.py'],
  [('setxattr/getxattr control branch', 'fs.py'), ('parse_literal', 'common.py')])
p('F09', 'Database cursors and transactions are never disturbed by other tasks',
  'While a request iterates over a query result, control is never given to another task, so no result is read from a cursor whose tables another task has modified. Explicit transactions of concurrent requests never overlap or nest, are committed rather than rolled back on every way out (a rollback would also undo changes of other tasks), and the metadata database is never accessed from a worker thread.',
  ['schedules'], 'all interleavings of concurrent requests',
  'Needs a task switch at one particular statement.',
  ['fs.py', 'block_cache.py', 'inode_cache.py', 'fsck.py', 'database.py', 'mount.py'],
  [('query loops in handlers', 'fs.py'), ('BatchedTransactionManager', 'database.py')])
p('F10', 'Directory listings neither skip nor repeat entries',
  'Reading a directory in pieces returns each entry that exists during the whole listing exactly once, in an order given by a stable position, resuming strictly after the last position the kernel accepted. An entry the kernel did not accept is not counted as referenced.',
  ['histories', 'inputs'], 'all buffer sizes and concurrent modifications',
  'Tests list small directories in one piece.',
  ['fs.py'], [('readdir query and offsets', 'fs.py')])
p('F11', 'Namespace and data changes update the right timestamps',
  'Creating, linking, renaming or removing an entry updates modification and change time of each affected directory, and the change time of every file whose link count changes; a new file gets all its times. Writing to a file updates its modification and change time; changing its size, attributes or extended attributes updates the change time. Replicated entries keep the times of their source.',
  ['histories', 'inputs'], 'all modifying requests and outcomes',
  'Tests compare timestamps for some of the requests only.',
  ['fs.py'], [('mtime_ns/ctime_ns updates in the handlers', 'fs.py')])
p('F12', 'Replicating a tree shares data and keeps all counts right',
  'Copying a directory tree inside the file system creates for every copied entry a directory entry, name count, link count, extended attributes, symbolic link target and block links, and raises the reference count of every shared object by the number of new links; modified blocks of the source are uploaded before they are shared. Copying, locking or removing a tree is refused in read-only state or when the tree is immutable where that applies.',
  ['histories', 'schedules'], 'all directory trees and interleavings with writers',
  'Tests copy one small quiescent tree.',
  ['fs.py'], [('copy_tree, lock_tree, remove_tree', 'fs.py')])

p('F13', 'Requests for things that are gone are answered, and entries stay reachable',
  'A request whose name, directory or file does not exist (any more), or that is refused, is answered with an error code: no name, nesting depth, deleted directory or concurrent removal makes the file system terminate, and no nesting depth makes the checker fail. An entry is removed or moved only if it still exists at that moment, and entries are never created in or moved into a directory that has already been deleted.',
  ['histories', 'schedules', 'inputs'], 'all names, tree depths, deleted-but-open directories, and interleavings of tree operations with other requests',
  'Tests use shallow trees, no deleted directories and one request at a time.',
  ['fs.py', 'common.py'], [('_remove, remove_tree, copy_tree, rename, _create, link', 'fs.py'), ('get_path', 'common.py')])

# ---------------------------------------------------------------- metadata
p('M01', 'A file system in use is marked dirty before it can change',
  'Before a mount, check or other maintenance command modifies metadata or data, it increases the version number and records, first locally and durably and then in the backend, that the file system is in use. If recording fails, nothing has been changed.',
  ['crash_points', 'fault_sequences'], 'every crash point between start-up and the first change',
  'Crash points are not exercised; FUSE tests cannot run here.',
  ['mount.py', 'fsck.py', 'adm.py', 'database.py'],
  [('mount start-up order', 'mount.py'), ('fsck start-up order', 'fsck.py'), ('shrink-db order', 'adm.py')])
p('M02', 'A file system is marked clean only after its metadata is complete',
  'The record that a file system is clean is published in the backend only after the database was closed and all its changed blocks were uploaded, and locally no later than remotely; creating a file system publishes its parameters last. Old metadata versions are deleted only after the new version is complete.',
  ['crash_points', 'fault_sequences'], 'every crash or failure point of unmount, check, creation and maintenance',
  'Crash points are not exercised.',
  ['mount.py', 'fsck.py', 'mkfs.py', 'adm.py', 'database.py'],
  [('unmount sequence', 'mount.py'), ('fsck final upload', 'fsck.py'), ('mkfs upload order', 'mkfs.py'), ('expire_objects', 'database.py')])
p('M03', 'Local state files are replaced atomically and durably',
  'The local record of file system parameters is written to a temporary file, forced to disk and renamed over the old one, with the directory forced to disk afterwards; at every crash point either the old or the new record is intact. The remote copies are written as the current record and a version-numbered record holding the same content.',
  ['crash_points'], 'every crash point while parameters are written',
  'Needs a power failure between individual system calls.',
  ['database.py'], [('write_params', 'database.py'), ('upload_params', 'database.py')])
p('M04', 'Inconsistent or foreign metadata is refused',
  'Mounting refuses, with its documented exit status and without changing anything, a file system that is marked in use, needs checking, has a different revision, or for which newer metadata exists elsewhere; the local copy is used only if its version equals the remote one. Checking never replaces newer metadata by older metadata unless the user confirms it.',
  ['histories', 'inputs'], 'all combinations of local and remote state',
  'Tests cover a few of the combinations and mount itself not at all.',
  ['mount.py', 'fsck.py', 'database.py', 'adm.py'], [('get_metadata', 'mount.py'), ('fsck start-up checks', 'fsck.py'), ('read_remote_params', 'database.py')])
p('M05', 'Periodic metadata backups are consistent snapshots',
  'A metadata backup taken while the file system is in use publishes its version record only after all database blocks of that version were uploaded while no database writes were possible, and later changes are then recorded under a higher version number. Writes are allowed again on every outcome, and a failed backup leaves no version record behind; a failure that is not temporary ends the mount with the file system still recorded as in use.',
  ['schedules', 'crash_points', 'fault_sequences'], 'all interleavings of backup upload and file system activity',
  'Needs writes during a specific upload phase or a failure inside it.',
  ['mount.py', 'database.py'], [('MetadataUploadTask', 'mount.py'), ('inhibit_writes/checkpoint', 'database.py'), ('UploadMetadata', 'database.py')])
p('M06', 'Every database modification is tracked for upload',
  'Every write to the database file is recorded so that all affected blocks are uploaded by the next incremental backup; truncating the file removes only the records of blocks beyond the new end. A block leaves the record only when it is taken into an upload, which uploads its complete content. While writes are inhibited the database file cannot be modified.',
  ['histories', 'fault_sequences'], 'all write sizes, offsets and upload failures',
  'Offsets spanning several blocks or failures in the middle of an upload are hardly sampled.',
  ['src/s3ql/_sqlite3ext.cpp', 'src/s3ql/sqlite3ext.pyx', 'database.py'],
  [('vfstraceWrite/vfstraceTruncate', '_sqlite3ext.cpp'), ('UploadMetadata dirty snapshot', 'database.py')])
p('M07', 'Downloaded metadata is exactly one published version',
  'Downloading metadata takes for every database block the newest copy that is not newer than the requested version, ignores blocks beyond the recorded size, cuts the file to the recorded size and verifies the recorded checksum; a mismatch is an error unless the file system was left in the emergency state. The result never mixes versions, and file blocks cached in an earlier session are not combined with it.',
  ['histories', 'fault_sequences'], 'all histories of uploads, expirations and restores',
  'Tests use short upload histories.',
  ['database.py'], [('DownloadMetadata', 'database.py'), ('first_le_than', 'database.py')])
p('M08', 'Expiring old metadata never deletes blocks that are still needed',
  'Removing old metadata versions keeps, for every retained version, the newest copy of each block not newer than that version, and always retains the most recent versions; version records are deleted only together with versions that are not retained.',
  ['histories'], 'all histories of versions and changed blocks',
  'Tests use a few hand-made histories.',
  ['database.py'], [('expire_objects', 'database.py'), ('get_block_objects', 'database.py')])
p('M09', 'Identifiers are never reused and references are constrained',
  'Identifiers of files and objects come from counters that never hand out an identifier twice, even after deletion, and the metadata schema forbids duplicate directory entries, duplicate names and two objects with the same content hash. All columns that refer to another table are declared as references to that table.',
  ['histories'], 'all histories of creation and deletion',
  'Reuse appears only after deleting the highest identifier and creating a new one.',
  ['database.py'], [('create_tables', 'database.py')])
p('M10', 'Recorded damage forces a file system check',
  'If the file system entered its emergency read-only state while mounted, because stored data is missing or damaged, this is recorded in the parameters that are published at unmount, so that the next mount is refused until a check was done; only a completed check clears the record. A check that leaves uncorrectable errors never publishes a clean state.',
  ['histories', 'fault_sequences'], 'all histories with damage followed by unmount, crash or check',
  'Only the in-process flag is tested.',
  ['mount.py', 'fsck.py'], [('needs_fsck at unmount', 'mount.py'), ('fsck result handling', 'fsck.py')])
p('M11', 'Attribute changes always reach the metadata',
  'Every change of a file attribute marks the in-memory copy as modified, modified copies are written back with all changeable attributes before they are dropped from memory, and flushing covers all of them; if writing a copy back fails, it stays in memory, modified, until a later write succeeds. Callers always change the copy that will be written back, and the attributes reported to the kernel are those of that copy. The set of attributes read, written and inserted matches the table definition.',
  ['histories', 'schedules'], 'all histories of attribute changes and cache replacement',
  'Tests change a few attributes of a few files.',
  ['inode_cache.py', 'database.py'], [('_Inode.__setattr__', 'inode_cache.py'), ('InodeCache', 'inode_cache.py')])
p('M12', 'Transactions end on every path and failed writes are not hidden',
  'Every explicitly opened database transaction is finished on every way out, including exceptions and cancellation, before control returns to other tasks. Write requests that the database refuses raise an error to the caller.',
  ['fault_sequences', 'schedules'], 'every failure point inside a transaction',
  'Failures inside transactions are hardly induced by tests.',
  ['database.py', 'fs.py', 'fsck.py', 'mount.py'], [('BatchedTransactionManager', 'database.py'), ('Connection', 'database.py')])

# ---------------------------------------------------------------- fsck
p('K01', 'Every repair by the checker is reported as an error found',
  'Whenever the checker reports an inconsistency, changes metadata, moves a file or schedules an object for deletion because of one, it records that errors were found, so that the exit status and the full metadata upload reflect it; on consistent metadata it changes nothing. Uncorrectable damage is recorded as such and leads to its own exit status.',
  ['inputs', 'histories'], 'all kinds and combinations of damage',
  'Each checker test injects one kind of damage and checks one flag.',
  ['fsck.py'], [('Fsck.check_* methods', 'fsck.py')])
p('K02', 'The checker examines every reference and every count',
  'For each column that refers to another table, and for each stored reference or link count, the checker runs a check comparing it against the rows it depends on, and a repair that adds or removes rows runs before the check of the counts that depend on these rows. All checks are run in every complete check.',
  ['inputs', 'histories'], 'all tables, references and counts, all combinations of damage',
  'Combinations of two kinds of damage are not tested.',
  ['fsck.py', 'database.py'], [('Fsck.check', 'fsck.py'), ('create_tables', 'database.py')])
p('K03', 'The checker preserves user data where it can',
  'Modified blocks found in the local cache are committed as objects before blocks and objects are checked and their cache files deleted only after they were stored; files and attributes that lost their entry are moved to the recovery directory rather than deleted. Backend objects are deleted only if the repaired metadata does not refer to them.',
  ['fault_sequences', 'histories'], 'all crash states',
  'Tests inject single crash states.',
  ['fsck.py'], [('check_cache', 'fsck.py'), ('lost+found handling', 'fsck.py'), ('check_objects_id', 'fsck.py')])
p('K04', 'Names and rows inserted by the checker are well-formed',
  'Everything the checker itself writes into metadata obeys the same rules as data written by the file system: names are byte strings of at most 255 bytes with correct counts, link counts match the entries it creates, and timestamps, modes and required columns are filled. Working tables are temporary and dropped when a check is complete, and the indices created for the check are dropped on every way out.',
  ['inputs', 'fault_sequences'], 'all repairs',
  'Tests look at the error flag, not at each row the repair created.',
  ['fsck.py'], [('_add_name, _link, create_inode', 'fsck.py'), ('temporary tables', 'fsck.py')])
p('K05', 'A checked file system is fully consistent',
  'After one complete check that reports success, a second check finds nothing to repair and every file and directory reachable before is reachable, for any initial damage.',
  ['inputs'], 'all damaged databases', 'Only single damages are tested.',
  ['fsck.py'], [('Fsck.check', 'fsck.py')])

# ---------------------------------------------------------------- backends
p('S01', 'Encrypted data is authenticated before it is used',
  'With encryption enabled, nothing read from the backend is returned to the caller as valid unless its authentication code was verified under a key derived from the secret, the object name it was stored under matches the requested one, and no extra or missing data follows; authentication codes are compared in constant time. An object that is not encrypted is rejected when the file system is encrypted.',
  ['inputs', 'fault_sequences'], 'all stored objects an attacker can produce',
  'Tests flip a byte or swap two objects; every return path has to be guarded.',
  ['backends/comprenc.py'], [('_verify_meta', 'backends/comprenc.py'), ('decrypt_fh', 'backends/comprenc.py')])
p('S02', 'Every encrypted object uses fresh keys and covers all metadata',
  'Every object stored encrypted gets a nonce of its own (the time of storing together with the object name); data and metadata keys are derived from the secret and that nonce in distinct ways, identically for writing and reading. The stored authentication code covers all metadata needed to interpret the object, including its name, nonce and compression type.',
  ['inputs', 'programs'], 'all objects and all writers',
  'Tests only round-trip.',
  ['backends/comprenc.py'], [('_compress_sync/write path', 'backends/comprenc.py'), ('_verify_meta', 'backends/comprenc.py')])
p('S03', 'Everything the writer can produce the reader understands',
  'Each compression and encryption type that can be written is recognized by the reader, which applies the inverse steps in the inverse order; a truncated or trailing-garbage compressed stream is rejected as corrupted. Metadata values of every supported type written by a storage backend are restored by the same backend.',
  ['inputs', 'programs'], 'all types and algorithms',
  'Tests sample the algorithms with small objects.',
  ['backends/comprenc.py', 'backends/s3c.py', 'backends/swift.py', 'backends/gs.py', 'backends/local.py', 'common.py'],
  [('compression tables', 'backends/comprenc.py'), ('metadata header encoding', 'backends/s3c.py')])
p('S04', 'Malformed stored objects are reported as corrupted',
  'Whatever bytes or metadata the backend returns for an object, a malformed object is reported through the corrupted-object error (or a retryable transfer error), never accepted and never through an unrelated error type that callers do not handle. Stored data is only ever parsed with safe literal parsers.',
  ['inputs'], 'all byte strings and metadata',
  'Tests use a few malformed objects.',
  ['backends/comprenc.py', 'backends/s3c.py', 'backends/swift.py', 'backends/gs.py', 'backends/local.py', 'common.py'],
  [('thaw_basic_mapping', 'common.py'), ('_extractmeta/_unwrap_user_meta', 'backends/s3c.py')])
p('S05', 'Transferred data is checked against the server\'s checksums',
  'Data received from S3-compatible and Swift servers is accepted only if it matches the checksum that comes with it, and backends that can be used without transport encryption verify the data they sent against the checksum the server reports; on mismatch the damaged object is deleted and the transfer is repeated. Where a backend stores a checksum of the object metadata, the metadata is accepted only if it matches.',
  ['fault_sequences', 'inputs'], 'all transfers and transmission errors',
  'Tests corrupt one transfer for one backend.',
  ['backends/s3c.py', 'backends/swift.py', 'backends/gs.py'], [('_readinto_fh, write_fh', 'backends/s3c.py'), ('_readinto_fh, write_fh', 'backends/swift.py')])
p('S06', 'Temporary failures are retried from a clean start',
  'Every backend operation that uses the network is repeated when it fails with a temporary error, including listing page by page; a repeated download restarts at the original position of the destination and a repeated upload resends the complete body. Permanent errors are passed on at once, and a delay requested by the server is honoured where the backend reads it from the response.',
  ['fault_sequences'], 'all operations of all backends, failing at any point',
  'The mock server fails only a few operations of some backends.',
  ['backends/common.py', 'backends/s3c.py', 'backends/s3c4.py', 'backends/swift.py', 'backends/swiftks.py', 'backends/gs.py', 'backends/comprenc.py', 'http.py'],
  [('retry decorator', 'backends/common.py'), ('fh.seek(off) in _readinto_fh', 'backends/s3c.py')])
p('S07', 'All storage backends follow one contract',
  'In every backend, looking up, sizing or reading a missing object raises the missing-object error, deleting a missing object succeeds silently, and deleting many objects leaves exactly the keys that may still exist in the caller\'s list and never loses a failure. Listing returns keys without the storage prefix, all pages of them, and only keys that were stored completely; a failure to list is reported.',
  ['inputs', 'fault_sequences'], 'all backends, keys and server responses',
  'The shared backend tests run on local storage and mock servers for a subset of operations.',
  ['backends/local.py', 'backends/s3c.py', 'backends/s3c4.py', 'backends/swift.py', 'backends/gs.py', 'backends/common.py', 'backends/comprenc.py'],
  [('AsyncBackend interface', 'backends/common.py')])
p('S08', 'Connections are encrypted and verified unless disabled by the user',
  'Every connection to a storage or authentication server uses TLS with certificate and host name verification unless the user explicitly disabled TLS for it (or the authentication server, itself reached as configured, names a plain storage URL), including redirected and proxied connections; credentials are never sent in the clear otherwise. All connections honour the configured proxy and the configured certificate authorities.',
  ['configurations'], 'all backends and option combinations',
  'Tests use local mock servers without certificates.',
  ['backends/common.py', 'backends/s3c.py', 'backends/s3.py', 'backends/b2ng.py', 'backends/swift.py', 'backends/swiftks.py', 'backends/gs.py', 'http.py'],
  [('get_ssl_context', 'backends/common.py'), ('HTTPConnection.connect', 'http.py')])
p('S09', 'A connection is reused only in a clean protocol state',
  'A connection goes back for reuse only if the previous request and response were both completely transferred (or the server declined the request body before any of it was sent); after any error, timeout or abandoned response it is closed. A request body is sent exactly in the announced length or the request fails, and a response that ends early is an error, not a short read.',
  ['fault_sequences', 'schedules'], 'all errors at any point of a request',
  'Tests abort at a few points.',
  ['http.py'], [('Pool.get', 'http.py'), ('_stream_body', 'http.py'), ('_next_event', 'http.py')])
p('S10', 'Secrets do not leak into logs, error messages or world-readable files',
  'Passphrases, backend passwords, access tokens and the keys derived from them never get into log messages, exception texts, command output (other than where showing a key is the purpose of the command), local files or unencrypted objects; the credentials file is refused if its group or others can read it. A missing cache directory is created accessible by its owner only.',
  ['programs', 'configurations'], 'all code paths that handle secrets',
  'Tests do not scan log output for secrets.',
  ['backends/common.py', 'backends/comprenc.py', 'backends/s3c.py', 'backends/swift.py', 'backends/gs.py', 'authinfo.py', 'parse_args.py', 'mkfs.py', 'adm.py', 'http.py'],
  [('Authinfo.from_file permission check', 'authinfo.py'), ('log calls', 'backends/s3c.py')])
p('S11', 'Local storage writes are atomic and stay inside their directory',
  'The local backend publishes an object only by renaming a completely written temporary file, so that readers and listings never see partial objects, and removes the temporary file if writing fails; concurrent writes never share a temporary file. Every key (other than "", "." and "..") maps one-to-one to a path inside the storage directory.',
  ['crash_points', 'inputs'], 'all crash points and keys',
  'Tests do not interrupt writes.',
  ['backends/local.py', 'common.py'], [('write_fh', 'backends/local.py'), ('_key_to_path, escape', 'backends/local.py')])
p('S12', 'Signed requests match what is sent',
  'Whatever part of a request is covered by an authentication signature is sent exactly as signed: headers covered by the signature are not changed afterwards and every provider-specific header is covered. Each repetition of a request is signed anew with the current time and key.',
  ['inputs', 'configurations'], 'all requests, ports and options',
  'The mock servers do not verify signatures for all requests.',
  ['backends/s3c.py', 'backends/s3c4.py', 'http.py'], [('_authorize_request', 'backends/s3c4.py'), ('send_request', 'http.py')])
p('S13', 'Expired credentials are renewed safely under concurrency',
  'When a token expires, it is renewed once and the affected requests are repeated with the new one; a late rejection of an old token never discards a newer one, and concurrent requests never use a connection pool or token that is being replaced half-way.',
  ['schedules', 'fault_sequences'], 'all interleavings of concurrent requests with token expiry',
  'Needs two requests failing at particular times.',
  ['backends/swift.py', 'backends/gs.py'], [('_borrow_conn/_do_authentication_expired', 'backends/swift.py'), ('_ensure_token', 'backends/gs.py')])

# ---------------------------------------------------------------- tools
p('T01', 'Destructive commands ask first and check first',
  'Creating a file system refuses to overwrite an existing one; clearing, upgrading and other irreversible maintenance ask for confirmation, and stop unless the answer is yes, before anything is deleted or changed; checking, maintenance and mounting refuse to work on a file system that is mounted under its storage URL on the same machine. Creating a file system, changing the passphrase and recovering the key store the data key, unchanged, under the entered passphrase in all four copies, and do nothing if the repeated passphrase differs.',
  ['inputs', 'histories'], 'all states and answers',
  'Tests always answer yes.',
  ['mkfs.py', 'adm.py', 'fsck.py'], [('mkfs existence check', 'mkfs.py'), ('clear/upgrade confirmation', 'adm.py'), ('is_mounted check', 'adm.py')])
p('T02', 'Verification reports every missing or damaged object',
  'Verification looks at every object referenced by metadata and records each one that is missing, damaged or differs in size or content in the corresponding report; the exit status is non-zero if and only if something was recorded. With the full option the complete contents are compared with the recorded hash.',
  ['inputs', 'schedules'], 'all objects and kinds of damage',
  'Tests damage single objects.',
  ['verify.py', 'common.py'], [('RetrieveObjects.consume', 'verify.py'), ('exit status', 'verify.py')])
p('T03', 'A dry run changes nothing and backups are only removed by rule',
  'The backup expiry tool in dry-run mode neither deletes backups nor writes its state; otherwise it deletes only backups that its rule selected, never more than the allowed proportion, and replaces its state file by renaming a completely written one, after the deletions. Existing backups without a state file are never deleted unless reconstruction was requested.',
  ['inputs', 'histories'], 'all options, states and backup sets',
  'There is no automated test of this tool.',
  ['contrib/expire_backups.py'], [('expire_backups', 'contrib/expire_backups.py')])
p('T04', 'Background work is started and stopped in a safe order',
  'A mount serves requests and starts its periodic tasks only after the file system was marked in use, locally and in the backend. It ends in a fixed order: no more requests, then inodes the kernel still knew are given up and the attribute cache is written back, then modified blocks are uploaded and pending removals done, then the workers are ended, then the database is closed and only then the metadata is uploaded. Periodic tasks cannot miss that they have to stop. After a failure during the mount the remaining steps are still carried out, and a mount ended by a signal or a failed thread is not reported as clean.',
  ['schedules', 'fault_sequences'], 'all failures and signals while mounted',
  'FUSE tests cannot run here and do not inject failures at shutdown.',
  ['mount.py', 'block_cache.py', 'fs.py'], [('mount main sequence', 'mount.py'), ('BlockCache.destroy', 'block_cache.py'), ('Operations.destroy', 'fs.py')])
p('T05', 'Parallel pipelines lose no work and surface every error',
  'In the parallel upload, download, deletion and verification pipelines each item produced is handed to exactly one worker, an error in any worker or in the producer aborts the pipeline and reaches the caller, and the final step runs only if all items were processed.',
  ['schedules', 'fault_sequences'], 'all interleavings and failures',
  'Tests run pipelines without failures in particular stages.',
  ['common.py', 'database.py', 'verify.py', 'backends/common.py'], [('ParallelPipeline.run', 'common.py'), ('_ParallelDelete', 'backends/common.py')])
p('T06', 'Backup expiry keeps a backup for every age range',
  'The backups kept by the expiry tool are sufficient to have a backup in each age range in all future cycles whenever that is possible.',
  ['inputs'], 'all sets of backups and ranges', 'No tests exist.',
  ['contrib/expire_backups.py'], [('process_backups', 'contrib/expire_backups.py')])
p('T07', 'Unmounting returns only after all data has been stored',
  'A normal unmount flushes the cache, detaches the mount point and returns only when the serving process has ended, is refused while the mount point is in use, and reports failure of any step by its exit status.',
  ['schedules', 'fault_sequences'], 'all process states',
  'FUSE tests cannot run here.',
  ['umount.py'], [('blocking_umount', 'umount.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x['id'] for x in P]
assert len(ids) == len(set(ids))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
