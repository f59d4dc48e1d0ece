"""The address of a server: taken, refused, given back, inherited."""
import errno
import socket as _socket
import sys
from checks.conn import *
from checks import conn
from vf import net as vfnet
from vf import simfs
from vf.loader import _Fake

EXPECT = ['end', 'refused', 'taken', 'replaced', 'stopped', 'inherited']
BOUNDS = ('an address in the file system that is free, left by a server that '
          'has gone, served by another, an empty file, a file of 1 to 10**6 '
          'bytes, in a directory that does not exist or may not be written '
          'to; any umask of 9 bits or none, owner and group absent, any '
          'number, a known or an unknown name, chown allowed or not; host '
          'and port, of either family, free or in use; abstract addresses; '
          'sockets inherited for any combination of what the environment '
          'says; servers stopped with or without a pack under way; waiting for a '
          'server that comes after 0 to 5 attempts, with 0 to 4 of them '
          'allowed')
ASSUMPTIONS = ['the operating system binds, connects and refuses as modelled '
               'in checks/c36.py', 'nobody takes the address between the '
               'attempt to connect and the removal of the old socket']
PATH = '/run/addr'


class Entry(object):

    def __init__(self, kind, size=0, owner=None, umask=None):
        self.kind = kind            # 'file' or 'sock'
        self.size = size
        self.uid, self.gid = owner or (1, 1)
        self.umask = umask
        self.bound = None
        self.mode = None


class World(object):

    def __init__(self, env):
        self.env = env
        self.paths = {}
        self.tcp = {}
        self.abstract = {}
        self.umask = env.int('umask0', 0, 0o777)
        self.missing = self.readonly = False
        self.may_chown = True
        self.eperm = None
        self.environ = {}
        self.fds = {}
        self.cloexec = set()
        self.slept = 0
        self.while_asleep = lambda: None
        self.removed = []
        W[0] = self

    def set_umask(self, value):
        old, self.umask = self.umask, value
        return old

    def chown(self, path, uid, gid):
        if not self.may_chown:
            raise PermissionError(errno.EPERM, 'chown')
        e = self.entry(path)
        e.uid, e.gid = uid, gid

    def entry(self, path):
        if path not in self.paths:
            raise FileNotFoundError(errno.ENOENT, path)
        return self.paths[path]

    def unlink(self, path):
        self.entry(path)
        self.removed.append(self.paths.pop(path))


W = [None]


class Stat(object):
    pass


class Sock(object):
    """A socket of the operating system."""

    def __init__(self, family=_socket.AF_INET, type=None, proto=0):
        self.family = family
        self.listening = self.closed = False
        self.name = None
        self.entry = None
        self.peer = None
        self.options = []

    def setsockopt(self, *a):
        self.options.append(a)

    def settimeout(self, t):
        self.timeout = t

    def table(self, addr):
        w = W[0]
        if self.family == _socket.AF_UNIX:
            return w.abstract
        return w.tcp

    def bind(self, addr):
        w = W[0]
        if self.family == _socket.AF_UNIX and not addr.startswith('\0'):
            if w.missing:
                raise FileNotFoundError(errno.ENOENT, 'bind')
            if addr in w.paths:
                raise OSError(errno.EADDRINUSE, 'bind')
            if w.readonly:
                raise PermissionError(errno.EACCES, 'bind')
            e = Entry('sock', umask=w.umask)
            e.bound = self
            self.entry = w.paths[addr] = e
        else:
            t = self.table(addr)
            if addr in t and not t[addr].closed:
                raise OSError(errno.EADDRINUSE, 'bind')
            t[addr] = self
        self.name = addr

    def listen(self, n):
        assert self.name is not None
        self.listening = True

    def connect(self, addr):
        w = W[0]
        if self.family == _socket.AF_UNIX and not addr.startswith('\0'):
            if addr not in w.paths:
                raise FileNotFoundError(errno.ENOENT, 'connect')
            other = w.paths[addr].bound
            if w.eperm:
                raise PermissionError(errno.EACCES, 'connect')
        else:
            other = self.table(addr).get(addr)
        if other is None or other.closed or not other.listening:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'connect')
        self.peer = other

    def getsockname(self):
        return self.name

    def close(self):
        self.closed = True


def fromfd(fd, family, type=None, proto=0):
    w = W[0]
    if fd not in w.fds:
        raise OSError(errno.EBADF, 'fromfd')
    s = Sock(family)
    s.name = w.fds[fd]
    s.listening = True
    s.of = fd
    return s


def fakes():
    out = dict(simfs.fakes())
    out.update(vfnet.fakes())
    base = out['os']

    def mine(p):
        return isinstance(p, str) and p.startswith('/run/')

    def exists(p):
        return p in W[0].paths if mine(p) else base.path.exists(p)

    def stat(p):
        if not mine(p):
            return base.stat(p)
        e = W[0].entry(p)
        st = Stat()
        st.st_size, st.st_uid, st.st_gid = e.size, e.uid, e.gid
        st.st_mode = (0o140000 if e.kind == 'sock' else 0o100000) + (
            e.mode or 0)
        return st

    def unlink(p):
        return W[0].unlink(p) if mine(p) else base.unlink(p)
    path = _Fake('os.path', base.path, {'exists': exists, 'lexists': exists})

    class Named(object):

        def __init__(self, n):
            self.pw_uid = self.gr_gid = n
            self.pw_name, self.gr_name = 'u%s' % n, 'g%s' % n

    def getnam(name):
        if name != 'known':
            raise KeyError(name)
        return Named(77)

    class Environ(dict):

        def __init__(self):
            pass

        def __getitem__(self, k):
            return W[0].environ[k]

        def get(self, k, default=None):
            return W[0].environ.get(k, default)

        def __contains__(self, k):
            return k in W[0].environ

    def close(fd):
        if W[0] is None or isinstance(fd, int):
            del W[0].fds[fd]

    import grp
    import pwd
    import time
    fc = out['fcntl']

    def sleep(n):
        W[0].slept += 1
        W[0].while_asleep()
    out.update({
        'os': _Fake('os', base, {
            'path': path, 'stat': stat, 'unlink': unlink, 'remove': unlink,
            'umask': lambda m: W[0].set_umask(m),
            'chown': lambda *a: W[0].chown(*a),
            'geteuid': lambda: 5, 'getegid': lambda: 6,
            'getpid': lambda: 4321, 'close': close, 'environ': Environ()}),
        'os.path': path,
        'pwd': _Fake('pwd', pwd, {'getpwnam': getnam, 'getpwuid': Named}),
        'grp': _Fake('grp', grp, {'getgrnam': getnam, 'getgrgid': Named}),
        'time': _Fake('time', time, {'sleep': sleep}),
        'fcntl': _Fake('fcntl', fc, {
            'fcntl': lambda fd, *a: W[0].cloexec.add((fd,) + a)}),
        'socket': _Fake('socket', _socket, {
            'socket': Sock, 'fromfd': fromfd}),
    })
    return out


STATES = ('free', 'stale', 'live', 'empty', 'file', 'missing', 'readonly',
          'forbidden')


def cases(tier):
    out = []
    for state in STATES:
        out.append(dict(name='unix-' + state, func='unix', expect=['end'],
                        params=dict(state=state)))
    for name in ('tcp', 'abstract', 'inherit', 'mode', 'serve', 'wait'):
        out.append(dict(name=name, func=name, expect=['end'], params={}))
    for kind in ALL_KINDS:
        out.append(dict(name='stop-' + kind, func='stop', expect=['end'],
                        params=dict(kind=kind)))
    return out


def who(env, name):
    k = env.choice(name, ['none', 'number', 'known', 'unknown'])
    if k == 'none':
        return None, None
    if k == 'number':
        n = env.int(name + ' id', 0, 2 ** 31)
        return n, n
    if k == 'known':
        return 'known', 77
    return 'nobody there', KeyError


def unix(env, state):
    from durus.storage_server import SocketAddress
    w = World(env)
    umask0 = w.umask
    other = None
    if state in ('stale', 'live', 'forbidden'):
        other = Sock(_socket.AF_UNIX)
        other.bind(PATH)
        other.listen(1)
        if state == 'stale':
            other.closed = True
            if env.choice('never listened', [False, True]):
                other.closed = other.listening = False
                other.entry.bound = None
        w.eperm = state == 'forbidden'
    elif state == 'empty':
        w.paths[PATH] = Entry('file')
    elif state == 'file':
        w.paths[PATH] = Entry('file', size=env.int('size', 1, 10 ** 6))
    elif state == 'missing':
        w.missing = True
    elif state == 'readonly':
        w.readonly = True
    was = w.paths.get(PATH)
    umask = env.int('umask', 0, 0o777) if env.choice(
        'has umask', [False, True]) else None
    owner, uid = who(env, 'owner')
    group, gid = who(env, 'group')
    w.may_chown = env.choice('chown', [True, False])
    address = SocketAddress.new(PATH, owner=owner, group=group, umask=umask)
    chown = owner is not None or group is not None
    fails = (state in ('live', 'file', 'missing', 'readonly', 'forbidden'))
    late = (uid is KeyError or gid is KeyError or
            (chown and not w.may_chown))
    try:
        s = address.get_listening_socket()
    except Exception as e:
        s = None
        env.check(fails or late, 'an address that could be taken is refused')
        if fails:
            env.check(isinstance(e, OSError), 'the error')
        env.reach('refused')
    else:
        env.check(not fails, 'an address is taken that is not free')
        env.check(not late, 'the owner could not be set')
        env.reach('taken')
    env.check(env.eq(w.umask, umask0), 'the umask of the process')
    if fails:
        env.check(w.paths.get(PATH) is was and not w.removed,
                  'what was at the address is gone')
        if state == 'live':
            c = address.get_connected_socket()
            env.check(c is not None and c.peer is other,
                      'the other server cannot be reached')
    if s is not None:
        e = w.paths[PATH]
        env.check(e.bound is s and s.listening, 'not listening')
        env.check(env.eq(e.umask, umask0 if umask is None else umask),
                  'the umask of the socket')
        if chown:
            env.check(env.eq(e.uid, 5 if uid is None else uid), 'the owner')
            env.check(env.eq(e.gid, 6 if gid is None else gid), 'the group')
        else:
            env.check((e.uid, e.gid) == (1, 1), 'the owner changed')
        c = address.get_connected_socket()
        env.check(c is not None and c.peer is s, 'cannot be reached')
        if state != 'free':
            env.reach('replaced')
        again = SocketAddress.new(PATH)
        try:
            again.get_listening_socket()
        except OSError:
            pass
        else:
            env.fail('the address is taken twice')
        c = address.get_connected_socket()
        env.check(c is not None and c.peer is s, 'cannot be reached any more')
        address.close(s)
        env.check(s.closed and PATH not in w.paths, 'the address is left')
        env.check(address.get_connected_socket() is None,
                  'still reached when closed')
    env.reach('end')


def tcp(env):
    from durus.storage_server import SocketAddress, HostPortAddress
    w = World(env)
    host = env.choice('host', ['127.0.0.1', '::1', 'some.where'])
    port = env.int('port', 1, 65535)
    port = env.choice('default port', [2972, 80])
    address = SocketAddress.new((host, port))
    env.check(SocketAddress.new(address) is address, 'given an address')
    env.check(str(address) == ('[%s]:%s' if ':' in host else '%s:%s') % (
        host, port), 'the text')
    env.check(address.get_connected_socket() is None, 'nobody there')
    taken = env.choice('taken', [False, True])
    if taken:
        o = SocketAddress.new((host, port)).get_listening_socket()
    try:
        s = address.get_listening_socket()
    except OSError:
        env.check(taken, 'refused')
    else:
        env.check(not taken, 'taken twice')
        env.check(s.family == (_socket.AF_INET6 if ':' in host
                               else _socket.AF_INET), 'the family')
        env.check(w.tcp == {(host, port): s} and s.listening, 'the address')
        c = address.get_connected_socket()
        env.check(c.peer is s and c.family == s.family, 'cannot be reached')
        address.close(s)
        env.check(s.closed, 'closed')
        env.check(address.get_connected_socket() is None, 'still there')
    env.reach('end')


def abstract(env):
    from durus.storage_server import SocketAddress
    w = World(env)
    name = '@' + env.choice('name', ['durus', 'a@b', '/run/addr'])
    address = SocketAddress.new(name)
    env.check(str(address) == name, 'the text')
    env.check(address.get_connected_socket() is None, 'nobody there')
    s = address.get_listening_socket()
    env.check(s.name[0] == '\0' and not w.paths, 'the name')
    c = SocketAddress.new(name).get_connected_socket()
    env.check(c.peer is s, 'cannot be reached')
    try:
        SocketAddress.new(name).get_listening_socket()
    except OSError:
        pass
    else:
        env.fail('taken twice')
    env.check(not w.removed, 'removed')
    address.close(s)
    env.check(address.get_connected_socket() is None, 'still there')
    env.reach('end')


def inherit(env):
    """A server with what the environment says about its sockets."""
    from durus.storage_server import StorageServer, SocketAddress
    import durus.storage_server as module
    w = World(env)
    pid = env.choice('pid', [None, '4321', '4322', '', 'x'])
    fds = env.choice('fds', [None, '0', '1', '2', '', 'y'])
    if pid is not None:
        w.environ['LISTEN_PID'] = pid
    if fds is not None:
        w.environ['LISTEN_FDS'] = fds
    names = ['/run/other', b'\0durus', ('10.0.0.1', 99), ('::1', 98, 0, 0)]
    name = names[env.choice('name', 4)]
    for fd in range(3, 3 + int(fds or '1') if fds not in ('', 'y') else 3):
        w.fds[fd] = name
    server = StorageServer(None, address=PATH)
    want = ('own' if pid != '4321' or fds == '0' else
            'inherited' if fds == '1' else 'error')

    class Over(Exception):
        pass

    def over(*a):
        raise Over()
    WORLD.net = type('N', (), {'select': staticmethod(over)})
    text = None
    try:
        server.serve()
    except Over:
        got = 'inherited' if type(server.address).__name__ == \
            'InheritedSocket' else 'own'
        text = str(server.address)
    except OSError:
        got = 'error'
    env.check(got == want, 'where the server listens')
    if got == 'own':
        env.check(text == PATH, 'the text')
        env.check([s.name for s in server.sockets] == [PATH], 'the socket')
    elif got == 'inherited':
        s = server.sockets[0]
        env.check(len(server.sockets) == 1 and s.name == name, 'the socket')
        env.check(s.family == (
            _socket.AF_UNIX if isinstance(name, (str, bytes)) else
            _socket.AF_INET6 if ':' in name[0] else _socket.AF_INET),
            'the family')
        env.check(text == {
            '/run/other': '/run/other', b'\0durus': '@durus',
            ('10.0.0.1', 99): '10.0.0.1:99',
            ('::1', 98, 0, 0): '[::1]:98'}[name], 'the text')
        env.check(3 not in w.fds, 'the first descriptor is left open')
        env.check(any(c[0] == 3 for c in w.cloexec), 'kept by children')
        conn = Sock(s.family)
        server.address.set_connection_options(conn)
        env.check(conn.timeout > 0, 'the timeout of connections')
        env.check(bool(conn.options) == (s.family != _socket.AF_UNIX),
                  'the options of connections')
        env.reach('inherited')
    env.check(PATH not in w.paths, 'the address is left')
    env.reach('end')


def mode(env):
    """What is shown about an address in the file system."""
    from durus.storage_server import SocketAddress
    w = World(env)
    address = SocketAddress.new(PATH)
    env.check(str(address) == PATH, 'the text of a free address')
    s = address.get_listening_socket()
    m = env.int('mode', 0, 0o777)
    w.paths[PATH].mode = m
    text = str(address)
    m = env.concrete(m)
    want = ''.join(c if m >> (8 - i) & 1 else '-'
                   for i, c in enumerate('rwxrwxrwx'))
    env.check(text == '%s (%s u1 g1)' % (PATH, want), 'the text')
    env.reach('end')


def serve(env):
    """However a server ends, its address is free again."""
    from durus.storage_server import StorageServer, SocketAddress
    w = World(env)
    how = env.choice('how', [KeyboardInterrupt, SystemExit, OSError])

    def over(r, *a):
        env.check(len(r) == 1 and r[0] is w.paths[PATH].bound, 'listening')
        raise how('over')
    WORLD.net = type('N', (), {'select': staticmethod(over)})
    stale = env.choice('stale', [False, True])
    if stale:
        o = Sock(_socket.AF_UNIX)
        o.bind(PATH)
        o.closed = True
    server = StorageServer(None, address=PATH)
    try:
        server.serve()
    except how:
        pass
    env.check(not w.paths, 'the address is left')
    again = SocketAddress.new(PATH).get_listening_socket()
    env.check(again.listening, 'taken again')
    env.reach('end')


def stop(env, kind):
    """Stopped by request, all that was committed is kept."""
    from durus import __main__
    w = World(env)
    server = Server(env, kind)
    net = server.net
    c = server.client()
    want = {}
    root = c.new_oid()
    for i in range(2):
        oid = root if i == 0 else c.new_oid()
        c.begin()
        want[oid] = record(env, oid, env.blob('r%d' % i, 0, 40),
                           [root] if i else [])
        c.store(oid, want[oid])
        if i:
            want[root] = record(env, root, env.blob('root', 0, 40), [oid])
            c.store(root, want[root])
        c.end(lambda oids: None)
    packing = env.choice('packing', [None, 0, 1, 2, 300])
    if packing is not None and kind != 'memory':
        c.pack()
        net.run(idle=packing)
    storage = server.storage
    env.check(__main__.stop_durus(server.address) is True, 'not stopped')
    net.run()
    env.check(net.ended and isinstance(net.died, SystemExit), 'still running')
    env.check(net.listener.closed, 'the address is left')
    env.check(__main__.stop_durus(server.address) is False,
              'stopped, though nobody was there')
    env.reach('stopped')
    if kind != 'memory':
        s = server.store.open()
        for o in want:
            env.check(same(env, lookup(s, o), want[o]),
                      'what was committed is gone')
    env.reach('end')


def wait(env):
    """Waiting for a server that comes, or not."""
    from durus.storage_server import SocketAddress, wait_for_server
    w = World(env)
    where = env.choice('where', ['tcp', 'path', 'host'])
    host, port = 'some.where', 2973
    address = PATH if where == 'path' else (host, port)
    comes = env.int('comes', 0, 5)
    tries = env.int('tries', 0, 4)
    server = []

    def come():
        if not server and bool(comes <= w.slept):
            server.append(SocketAddress.new(address).get_listening_socket())
    w.while_asleep = come
    come()
    made = []
    new = Sock.__init__

    def init(self, *a, **k):
        new(self, *a, **k)
        made.append(self)
    Sock.__init__ = init
    try:
        if where == 'host':
            wait_for_server(host, port, maxtries=tries, sleeptime=1)
        else:
            wait_for_server(address=address, maxtries=tries, sleeptime=1)
        found = True
    except SystemExit as e:
        found = False
        env.check(bool(e.code), 'given up without an error')
    finally:
        Sock.__init__ = new
    env.check(env.eq(found, comes < tries), 'a server that is there is found')
    env.check(w.slept == (comes if found else tries), 'how often it waits')
    for s in made:
        env.check(s is server[-1] if s.listening else
                  s.closed or s.peer is None, 'a connection is left')
    env.reach('end')
