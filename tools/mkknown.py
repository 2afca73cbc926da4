'''Write known_findings.json: defects of s3ql that were found with the checks. Nothing here suppresses anything unless it is
listed under "findings".'''
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '''9037851 F02 removing an extended attribute that does not exist released a reference of its name
47c3625 F02 overwriting an extended attribute took another reference of its name
389c45d F07 truncating a file with a missing or damaged object ended the daemon instead of giving EIO and read-only mode
9fac114 F04 a failing unlink, rmdir, rename or rmtree kept the kernel reference taken by its lookup
821f3a4 F12,F09 copying a tree: blocks of files looked up while the cache changed were not uploaded before they were shared
c901fe5 F12,B04 start_flush() returned while a block was still being hashed, so that its link was not in the database
0c00757 F09,M12 two tasks could issue BEGIN inside each other's batched transaction
48c5c33 F08 a malformed command argument raised exceptions other than ValueError and ended the daemon
d473756 S04 a stored mapping that is not a dictionary ended in an exception other than ThawError
c9879c9 F08 locking or removing a tree below an inode that does not exist ended the daemon
47ea5d1 B01 a task cancelled while holding a block lock never released it
6b56b49 B03 after an upload that could not be handed over other blocks were linked to the object that was never stored
38868a6 M01 mount and s3qladm changed the database before the file system was recorded as in use
03d428d M07 restoring a metadata backup kept using the newer local copy and cache
1ea688e M04,M07 an interrupted restore left local parameters that match neither version
2b06cf5 M04 an interrupted update of the two remote records made the file system unusable
d5bd794 M07 a stale write-ahead log was applied to freshly downloaded metadata
1fcea73 K04 the checker restored names of extended attributes as text instead of bytes
87332fc K02 blocks of vanished inodes were checked after the reference counts that depend on them
3f5a7dc K03 a cached block whose upload was interrupted was taken for stored and deleted
40bc858 S06 gs: a repeated download wrote after the partial data of the failed one
7aab2c0 S06 gs: 429 was treated as permanent
3b5e698 S13 gs: a fresh token was discarded because an old one had been rejected
76f4819 S06 s3, b2: temporary failures of the region discovery were not retried
47c6719 S08 b2: the region discovery ignored the configured proxy
41028ce S12 s3c4: the signed Host header was not the one that was sent
d167c5b S07 local: the size of a missing object raised FileNotFoundError
2048ddd S07 s3c4: keys deleted by a bulk delete stayed in the list of keys
649a3ab S07 swift: an aborted bulk delete was taken as having deleted everything
4321c6d S11 local: failed uploads left their temporary file
45fef81 S04 s3c, swift: malformed metadata headers ended in unrelated exceptions
9a5de03 S04 gs: malformed metadata ended in unrelated exceptions
a0a8ace S04,S03 malformed encrypted or compressed objects ended in unrelated exceptions
6cd056b S05 swift: uploads over unencrypted connections were not verified
4ec5e13 S05 swift: damaged transfers were not repeated
825289e S09 a connection was reused although the request body had not been sent completely
3e6db0b S03 blanks at the ends of metadata values were lost in HTTP headers
54e55a1 S11,B10 local: a partial write was taken as complete
562b495 S11 local: concurrent writers of one key shared a temporary file
8994872 B10 a partial write to a cache file was taken as complete
2d1563d B10 a partial write of downloaded metadata was taken as complete
75c86a3 S08 swift: the proxy was chosen by the TLS use of the authentication server
85b5f8b T07 umount.s3ql failed if the daemon ended while its command line was read
de2dd0d T01 a mounted file system was not recognised if its storage URL contains blanks
4a3b7e4 S07 local: objects in a directory that cannot be read were left out of listings
263b984 M05 a failure while writes were being inhibited left them inhibited
675bbaf F13 rename accepted a directory that had been removed as the target
039ab77 F13 computing the path of a deep or unlinked directory for a message terminated the file system
db038af F13 s3qlrm terminated the file system if entries were removed concurrently
3a92a0f F13 s3qlcp lost the copy or terminated the file system if its target was removed or filled meanwhile
517b8ad F13 fsck.s3ql failed for deeply nested directories
6ed3b81 M11 attribute changes were lost if writing them to the database failed once
cc08e89 F05 removing, truncating or syncing a huge sparse file blocked the file system until it ran out of memory'''
fixed = []
for l in F.splitlines():
    c, props, what = l.split(' ', 2)
    for p in props.split(','):
        fixed.append('fixed: property=%s %s %s' % (p, c, what))
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as fh:
    json.dump({'findings': [], 'fixed': fixed}, fh, indent=1)
    fh.write('\n')
