'''Registry of the checks, by property id.'''

CHECKS = {}


def check(pid, **kw):
    def deco(f):
        d = dict(kw)
        d['func'] = f
        CHECKS[pid] = d
        return f

    return deco


from . import backup, cache, fs, fsck, meta, meta2, storage, storage2, storage3, storage4, secrets, tools  # noqa: E402,F401
