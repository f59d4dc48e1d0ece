"""Shared by the storage harnesses."""
from vf.env import WORLD
from vf.simfs import SimFS
from vf.simdb import Databases


def oid8(n):
    return n.to_bytes(8, 'big')


def record(env, oid, data, refs=()):
    """A record in the documented format."""
    return env.cat(oid, env.pack4(env.blen(data)), data, *refs)


class Store(object):
    """One storage kind, opened on a simulated disk."""

    def __init__(self, env, kind, fs=None):
        self.env = env
        self.kind = kind
        self.path = 'db'
        if WORLD.fs is None:
            WORLD.fs = fs or SimFS(env)
        if kind == 'sqlite' and WORLD.db is None:
            WORLD.db = Databases(env)

    def open(self, repair=False, readonly=False):
        k = self.kind
        if k == 'fs':
            from durus.file_storage import FileStorage
            s = FileStorage(self.path, repair=repair, readonly=readonly)
        elif k == 'fs2':
            from durus.file_storage2 import FileStorage2
            s = FileStorage2(self.path, repair=repair, readonly=readonly)
        elif k == 'sqlite':
            from durus.sqlite_storage import SqliteStorage
            s = SqliteStorage(self.path)
        elif k == 'memory':
            from durus.storage import MemoryStorage
            s = MemoryStorage()
        else:
            raise ValueError(k)
        return s


def lookup(storage, oid):
    """The record stored for oid, or None."""
    try:
        return storage.load(oid)
    except KeyError:
        return None


def commit(storage, pairs):
    storage.begin()
    for oid, rec in pairs:
        storage.store(oid, rec)
    storage.end()


def same(env, a, b):
    """a == b, where None is `absent`."""
    if a is None or b is None:
        return a is None and b is None
    return env.eq(a, b)


PERSISTENT_KINDS = ('fs', 'fs2', 'sqlite')
ALL_KINDS = PERSISTENT_KINDS + ('memory',)
