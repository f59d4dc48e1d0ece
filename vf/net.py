"""A network in which the real server runs next to its clients.

StorageServer.serve() runs in a thread of its own, the clients in the thread
of the harness, and exactly one of the two runs at any time: the server runs
when a client waits for an answer (or the harness says so), until it waits
itself. What select() finds ready, how many bytes a send or recv moves, and
when a connection breaks is decided by the harness, symbolically if it likes.
"""
import ctypes
import select as _select
import socket as _socket
import threading
import types
from vf.env import WORLD
from vf.loader import _Fake

error = OSError


class Shutdown(BaseException):
    pass


class Deadlock(Exception):
    pass


class Pipe(object):

    def __init__(self, net):
        self.net = net
        self.data = b''
        self.closed = False         # by the writer
        self.lost = False           # the reader is gone

    def put(self, data):
        self.data = self.net.env.cat(self.data, data)

    def empty(self):
        # the engine decides
        return not bool(self.net.env.blen(self.data) > 0)


class Sock(object):
    """One end of a connection."""

    def __init__(self, net, name, out, inp, server):
        self.net = net
        self.name = name
        self.out = out
        self.inp = inp
        self.server = server
        self.closed = False
        self.timed_out = False
        self.reset = False
        self.family = _socket.AF_UNIX

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def setblocking(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def fileno(self):
        return id(self)

    def getsockname(self):
        return self.name

    def close(self):
        if not self.closed:
            self.closed = True
            self.out.closed = True
            self.inp.lost = True

    def readable(self):
        return self.inp.closed or self.reset or not self.inp.empty()

    def send(self, data, flags=0):
        net = self.net
        if self.closed:
            raise error(9, 'Bad file descriptor')
        if self.out.lost or self.reset:
            raise BrokenPipeError(32, 'Broken pipe')
        if (not self.server and net.before_request is not None and
                net.waiting and not net.busy and self.out.empty()):
            net.busy = True
            try:
                net.before_request(self)
            finally:
                net.busy = False
        n = net.env.blen(data)
        k = net.sent(self, n)
        if k is None:
            self.out.put(data)
            return n
        self.out.put(net.env.cut(data, 0, k))
        return k

    def sendall(self, data, flags=0):
        while bool(self.net.env.blen(data) > 0):
            k = self.send(data)
            data = self.net.env.cut(data, k, self.net.env.blen(data))

    def recv(self, n, flags=0):
        net, env = self.net, self.net.env
        if self.closed:
            raise error(9, 'Bad file descriptor')
        while self.inp.empty():
            if self.inp.closed:
                return b''
            if self.reset:
                raise ConnectionResetError(104, 'Connection reset by peer')
            if self.server:
                if self.timed_out:
                    raise _socket.timeout('timed out')
                net.to_harness()
            else:
                net.request(self)
        data = self.inp.data
        have = env.blen(data)
        if bool(have < n):
            n = have
        k = net.received(self, n)
        if k is not None:
            n = k
        self.inp.data = env.cut(data, n, have)
        return env.cut(data, 0, n)

    # convenience for harnesses that speak the protocol themselves
    def read(self, n):
        raise AttributeError('read')

    def write(self, s):
        raise AttributeError('write')


# durus.utils distinguishes files from sockets by these names
del Sock.read, Sock.write


class Listener(Sock):

    def __init__(self, net):
        pipe = Pipe(net)
        Sock.__init__(self, net, 'listener', pipe, pipe, True)
        self.pending = []

    def readable(self):
        return bool(self.pending)

    def accept(self):
        return self.pending.pop(0), 'client'

    def listen(self, *a):
        pass

    def close(self):
        self.closed = True


class Net(object):

    def __init__(self, env):
        self.env = env
        self.listener = None
        self.thread = None
        self.exc = None
        self.ended = False
        self.stopping = False
        self.idle = 0               # rounds without requests allowed
        self.waiting = False        # the server is in select()
        self.before_request = None  # hook, before a client asks anything
        self.died = None
        self.sent = lambda sock, n: None
        self.received = lambda sock, n: None
        self.busy = False
        self.h = threading.Lock()
        self.s = threading.Lock()
        self.h.acquire()
        self.s.acquire()
        WORLD.net = self
        env.on_exit(self.shutdown)

    # the server's thread ------------------------------------------------

    def _main(self, f):
        self.s.acquire()
        try:
            if not self.stopping:
                f()
        except BaseException as e:
            self.exc = e
        self.ended = True
        self.h.release()

    def to_harness(self):
        if self.stopping:
            raise Shutdown()
        self.h.release()
        self.s.acquire()
        if self.stopping:
            raise Shutdown()

    def select(self, r, w, x, timeout=None):
        while True:
            ready = [s for s in r if s.readable()]
            if ready:
                return ready, [], []
            if w:
                return [], list(w), []
            if timeout is not None and self.idle > 0:
                self.idle -= 1
                return [], [], []
            self.idle = 0
            self.waiting = True
            self.to_harness()
            self.waiting = False

    # the harness's thread -----------------------------------------------

    def start(self, make):
        """make() -> the server, called in its thread"""
        def serve():
            self.server = make()
            self.server.serve()
        self.thread = threading.Thread(target=self._main, args=(serve,),
                                       daemon=True)
        self.thread.start()
        self.run()

    def run(self, idle=0):
        """Let the server run until it waits; with `idle` rounds in which
        nothing is requested (one step of a pack each)."""
        if self.ended:
            return
        self.idle = idle
        self.s.release()
        self.h.acquire()
        if self.ended:
            e, self.exc = self.exc, None
            self.died = e
            if e is not None and not isinstance(e, SystemExit):
                if not isinstance(e, Shutdown):
                    raise e
            if self.listener is not None:
                for c in self.server.clients:
                    c.s.close()

    def request(self, sock):
        """A client waits for an answer."""
        if sock.inp.empty() and not sock.inp.closed:
            self.run()
        if sock.inp.empty() and not sock.inp.closed and not sock.reset:
            if self.ended:
                return sock.inp.__setattr__('closed', True)
            raise Deadlock('the server does not answer')

    def connect(self):
        """-> the client's end of a new connection"""
        if self.ended or self.listener is None:
            return None
        a, b = Pipe(self), Pipe(self)
        n = 'client'
        mine = Sock(self, n, a, b, False)
        self.listener.pending.append(Sock(self, n, b, a, True))
        self.run()
        return mine

    def shutdown(self):
        t = self.thread
        if t is None:
            return
        self.stopping = True
        for i in range(5):
            if self.ended:
                break
            if i == 3:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(t.ident), ctypes.py_object(Shutdown))
            try:
                self.s.release()
            except RuntimeError:
                pass
            self.h.acquire(timeout=2)
        t.join(2)
        self.exc = None
        self.thread = None


def address(net):
    """A SocketAddress of the durus that is loaded."""
    from durus.storage_server import SocketAddress

    class Address(SocketAddress):

        def __str__(self):
            return 'simulated'

        def get_listening_socket(self):
            net.listener = Listener(net)
            return net.listener

        def get_connected_socket(self):
            return net.connect()

        def set_connection_options(self, s):
            pass

        def close(self, s):
            s.close()
    return Address()


def fakes():
    return {'select': _Fake('select', _select, {
        'select': lambda *a: WORLD.net.select(*a)})}
