"""Connections of one or two clients."""
from checks.common import *
from vf import net as vfnet
from vf.net import Net, Deadlock


def fakes():
    return vfnet.fakes()


class Server(object):
    """The real server and clients on a simulated network."""

    def __init__(self, env, kind='memory', storage=None, gcbytes=0):
        from durus.storage_server import StorageServer
        self.env = env
        self.net = Net(env)
        self.store = Store(env, kind)
        self.address = vfnet.address(self.net)

        def make():
            # some storages belong to the thread that opened them
            self.storage = storage or self.store.open()
            return StorageServer(self.storage, address=self.address,
                                 gcbytes=gcbytes)
        self.net.start(make)
        self.server = self.net.server

    def client(self, pool=None):
        from durus.client_storage import ClientStorage
        c = ClientStorage(address=self.address)
        if pool is not None:
            c.oid_pool_size = pool
        return c

    def connection(self, cache_size=100000, pool=None):
        from durus.connection import Connection
        return Connection(self.client(pool), cache_size=cache_size)
