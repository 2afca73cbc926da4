A = 'src/s3ql/adm.py'
V = 'src/s3ql/verify.py'
C = 'src/s3ql/common.py'
U = 'src/s3ql/umount.py'
E = 'contrib/expire_backups.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('t01-answer-prefix', 'T01', [(A, """    if sys.stdin.readline().strip().lower() != 'yes':
        raise QuietError()

    log.info('Deleting in batches...')
""", """    if not 'yes'.startswith(sys.stdin.readline().strip().lower()):
        raise QuietError()

    log.info('Deleting in batches...')
""")], 'the question is answered with an empty line or not at all (stdin closed)', 'everything is deleted without a confirmation', """
from fsh import *
import subprocess
import trio
tmp = tempfile.mkdtemp(prefix='s3ql-demo-')
os.mkdir(tmp + '/backend')
open(tmp + '/authinfo', 'w').close()
os.chmod(tmp + '/authinfo', 0o600)
os.mkdir(tmp + '/cache')
import s3ql.backends.local as local_
async def fill():
    b = await local_.AsyncBackend.create(storage_url='local://' + tmp + '/backend', backend_options={})
    await b.store('precious', b'hello')
trio.run(fill)
subprocess.run([sys.executable, '-m', 's3ql.adm', '--authfile', tmp + '/authinfo', '--cachedir', tmp + '/cache', 'clear',
                'local://' + tmp + '/backend'], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
               env=dict(os.environ, PYTHONPATH=os.getcwd() + '/src'))
got = []
async def check():
    b = await local_.AsyncBackend.create(storage_url='local://' + tmp + '/backend', backend_options={})
    async for k in b.list():
        got.append(k)
trio.run(check)
assert 'precious' in got, 'deleted without a confirmation'
os._exit(0)
""")

seed('t02-longer-objects', 'T02', [(V, """            if obj.exp_size != size:
""", """            if obj.exp_size > size:
"""), (V, """            hash_ = sha256_fh(buf).digest()

            if obj""", """            hash_ = hashlib.sha256(buf.read(obj.exp_size)).digest()

            if obj"""), (V, "import io\n", "import hashlib\nimport io\n")], 'an object that has additional data at its end',
     'the object is not reported', """
from fsh import *
import io
from s3ql.verify import RetrieveObjects

async def main():
    async with filesystem() as h:
        await h.mkfile(b'f', b'x' * 500)
        await h.cache.drop()
        (id_, ) = h.db.get_row('SELECT id FROM objects')
        await h.backend.store('s3ql_data_%d' % id_, b'x' * 500 + b'more')
        bad, missing = io.StringIO(), io.StringIO()
        from s3ql import verify
        await verify.retrieve_objects(h.db, h.backend, bad, missing, full=True)
        assert 's3ql_data_%d' % id_ in bad.getvalue(), 'not reported'

run(main)
""")

seed('t03-proportion-of-known', 'T03', [(E, """    to_delete = process_backups(backup_list, saved_state, cycles)

    if len(backup_list) and (len(to_delete) / len(backup_list) > proportion_delete):
""", """    known = backup_list | set(saved_state)
    to_delete = process_backups(backup_list, saved_state, cycles)

    if known and (len(to_delete) / len(known) > proportion_delete):
""")], 'most backups recorded in the state file have been removed by hand', 'more than the allowed proportion of the existing backups is removed', """
from fsh import *
import subprocess
from s3ql.common import freeze_basic_mapping
tmp = tempfile.mkdtemp(prefix='s3ql-demo-')
repo = os.getcwd()
os.chdir(tmp)
names = ['2020-01-%02d_00:00:00' % i for i in range(1, 5)]
for n in names:
    os.mkdir(n)
old = ['2019-01-%02d_00:00:00' % i for i in range(1, 29)]
state = {n: 40 + i for i, n in enumerate(reversed(old))}
state.update({n: 30 + i for i, n in enumerate(reversed(names))})
with open('.expire_backups.dat', 'wb') as fh:
    fh.write(freeze_basic_mapping(state))
subprocess.run([sys.executable, os.path.join(repo, 'contrib/expire_backups.py'), '--quiet', '1', '2'], stdout=subprocess.DEVNULL,
               stderr=subprocess.DEVNULL)
left = [n for n in names if os.path.exists(n)]
assert len(left) >= 2, 'only %s left' % left
""")

seed('t05-workers-have-ended', 'T05', [(C, """                    for item in jobs:
                        await send_chan.send(item)
""", """                    for item in jobs:
                        try:
                            await send_chan.send(item)
                        except trio.BrokenResourceError:
                            log.debug('ParallelPipeline.run: all workers have terminated')
                            break
""")], 'all workers of a pipeline end before all jobs are taken', 'the remaining jobs are skipped without an error', """
from fsh import *
import trio
from s3ql.common import ParallelPipeline
done = []

class P(ParallelPipeline):
    async def produce(self):
        return list(range(6))
    async def consume(self, jobs):
        async for j in jobs:
            done.append(j)
            if j == 2:
                break
    def finalize(self):
        done.append('all')

async def main():
    try:
        with trio.fail_after(20):
            await P().run(n_workers=1, buffer_size=1)
    except trio.TooSlowError:
        raise
    except BaseException:
        return
    assert done[:6] == list(range(6)), done

run(main)
""")

seed('t07-gives-up', 'T07', [(U, """        # Process still exists, we wait
        log.debug('Daemon seems to be alive, waiting...')
        time.sleep(step)
        if step < 1:
            step += 0.1
""", """        # Process still exists, we wait
        log.debug('Daemon seems to be alive, waiting...')
        time.sleep(step)
        if step < 300:
            step *= 1.1
        else:
            log.warning('Daemon still running, not waiting any longer.')
            break
""")], 'storing the remaining data takes more than about an hour', 'umount.s3ql returns although data has not been stored', """
from fsh import *
import subprocess
from s3ql import umount
p = subprocess.Popen(['sleep', '100'])
waited = [0]
def sleep(n):
    waited[0] += n
    if waited[0] > 20000:
        p.kill()
        p.wait()
umount.time.sleep = sleep
umount.subprocess.call = lambda cmd, **kw: 1 if 'fuser' in cmd[0] and 'mount' not in cmd[0] else 0
umount.pyfuse3.setxattr = lambda *a, **kw: None
umount.pyfuse3.getxattr = lambda *a, **kw: b'%d' % p.pid
try:
    umount.blocking_umount('/nonexistent')
    assert p.poll() is not None, 'returned after %d seconds while the daemon is running' % waited[0]
finally:
    p.kill()
    p.wait()
""")
