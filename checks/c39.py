"""What `durus` does with what it is told on the command line."""
import io
import os
import sys
import tempfile
from checks.graph import *
from checks import conn
from vf.simfs import Inode

EXPECT = ['end', 'refused', 'repaired', 'packed']
BOUNDS = ('-s, -p and -c with all combinations of the options for the file, '
          'its class, the address (host, port, path, abstract name, owner, '
          'group, umask), gcbytes, readonly, repair, stop, cache size and '
          'startup; numbers and names from short lists; files of '
          'FileStorage, FileStorage2 and SQLite with arbitrary records, '
          'complete or with the last 1 to 40 bytes missing')
ASSUMPTIONS = ['optparse and code of the Python library do what they '
               'promise', 'reading and writing of the terminal and its '
               'history are not modelled']
KINDS = ('fs', 'fs2', 'sqlite')
CLASS = {'fs': 'durus.file_storage.FileStorage',
         'fs2': 'durus.file_storage2.FileStorage2',
         'sqlite': 'durus.sqlite_storage.SqliteStorage'}


def fakes():
    return conn.fakes()


def cases(tier):
    out = []
    for kind in KINDS:
        for what in ('whole', 'torn') if kind != 'sqlite' else ('whole',):
            out.append(dict(name='serve-%s-%s' % (kind, what), func='serve',
                            params=dict(kind=kind, torn=what == 'torn'),
                            expect=['end']))
        out.append(dict(name='pack-' + kind, func='pack', expect=['packed'],
                        params=dict(kind=kind, server=False)))
        out.append(dict(name='pack-server-' + kind, func='pack',
                        params=dict(kind=kind, server=True),
                        expect=['packed']))
        out.append(dict(name='client-' + kind, func='client',
                        params=dict(kind=kind), expect=['end']))
    out.append(dict(name='address', func='address', params={},
                    expect=['end']))
    out.append(dict(name='temporary', func='temporary', params={},
                    expect=['end']))
    out.append(dict(name='client-server', func='client_server', params={},
                    expect=['end']))
    out.append(dict(name='startup', func='startup', params={},
                    expect=['end']))
    return out


class Asked(Exception):
    pass


class Main(object):
    """The real main(), with the parts that would block replaced."""

    def __init__(self, env):
        from durus import __main__, logger
        self.m = __main__
        self.env = env
        self.served = None
        self.stopped = []
        self.consoles = []
        self.waited = []
        me = self
        real = __main__.StorageServer

        class Server(real):

            def serve(self):
                me.served = self
        __main__.StorageServer = Server

        def stop(address):
            me.stopped.append(address)
            return True
        __main__.stop_durus = stop
        __main__.configure_readline = lambda *a: None
        base = __main__.InteractiveConsole

        class Console(base):

            def interact(self, banner=None, **k):
                me.consoles.append(self)
                me.use(self.locals)

            def write(self, data):
                raise AssertionError(data)
        __main__.InteractiveConsole = Console
        __main__.direct_output = lambda f: None
        self.use = lambda names: None

    def run(self, *argv):
        saved = sys.argv, sys.stderr, sys.stdout
        old = sys.modules.get('__console__')
        sys.argv = ['durus'] + list(argv)
        sys.stderr = sys.stdout = io.StringIO()
        try:
            self.m.main()
        finally:
            sys.argv, sys.stderr, sys.stdout = saved
            sys.modules.pop('__console__', None)


def prepared(env, kind):
    """A file with a root, an object it refers to, and one that it does not.
    -> records"""
    from durus.connection import Connection
    st = Store(env, kind)
    s = st.open()
    c = Connection(s)
    a = s.new_oid()
    lost = s.new_oid()
    root = s.load(oid8(0))
    data = plain_data(root)
    recs = {oid8(0): record(env, oid8(0), data, [a])}
    recs[a] = record(env, a, env.blob('a', 0, 40))
    recs[lost] = record(env, lost, env.blob('lost', 0, 40), [a])
    commit(s, sorted(recs.items()))
    recs[a] = record(env, a, env.blob('a2', 0, 40))
    commit(s, [(a, recs[a])])
    s.close()
    if kind == 'sqlite':
        # (for those who look at its first bytes)
        fs = WORLD.fs
        fs.paths[fs.norm('db')] = Inode(fs.nextid, b'SQLite format 3\0')
        fs.nextid += 1
    return recs, lost


def plain_data(rec):
    from durus.serialize import unpack_record
    return unpack_record(rec)[1]


def contents(kind):
    if kind == 'sqlite':
        return None
    return WORLD.fs.inode('db').data


def expected(env, s, recs, what):
    for o in recs:
        env.check(same(env, lookup(s, o), recs[o]), what)


def flag(env, name):
    return env.choice(name, [False, True])


def serve(env, kind, torn):
    """The file is served, read only or not, repaired or not."""
    recs, lost = prepared(env, kind)
    m = Main(env)
    before = contents(kind)
    if torn:
        # the last transaction is incomplete
        n = env.int('missing', 1, 40)
        size = env.blen(before)
        from durus.utils import int8_to_str
        fs = WORLD.fs
        fs.inode('db').data = before = env.cut(before, 0, size - n)
        fs.checkpoint()
        env.assume(bool(n <= shortest(env, kind, recs)))
    args = ['-s', '--file', 'db']
    readonly, repair = flag(env, 'readonly'), flag(env, 'repair')
    if flag(env, 'class'):
        args += ['--storage-class', CLASS[kind]]
    if readonly:
        args.append('--readonly')
    if repair:
        args.append('--repair')
    gc = env.choice('gcbytes', [None, 0, 1000])
    if gc is not None:
        args += ['--gcbytes', str(gc)]
    port = env.choice('port', [None, 2973])
    if port:
        args += ['--port', str(port)]
    try:
        m.run(*args)
    except (Exception, SystemExit) as e:
        env.check(m.served is None, 'served, and an error')
        env.check(torn and (not repair or readonly) or
                  kind == 'sqlite' and readonly,
                  'refused: %r' % (e,))
        if kind != 'sqlite':
            env.check(env.eq(contents(kind), before), 'refused, and changed')
        env.reach('refused')
        env.reach('end')
        return
    env.check(not torn or repair, 'served though the end is missing')
    env.check(m.served is not None and not m.stopped, 'it is not served')
    v = m.served
    from durus.storage_server import (DEFAULT_PORT, DEFAULT_HOST,
                                      DEFAULT_GCBYTES, HostPortAddress)
    env.check(type(v.storage).__name__ == CLASS[kind].split('.')[-1],
              'the class of the storage')
    env.check(v.gcbytes == (DEFAULT_GCBYTES if gc is None else gc),
              'gcbytes')
    env.check(isinstance(v.address, HostPortAddress) and
              v.address.host == DEFAULT_HOST and
              v.address.port == (port or DEFAULT_PORT), 'the address')
    if torn:
        # the transaction before
        del recs[oid8(1)]
        env.reach('repaired')
    elif kind != 'sqlite':
        env.check(env.eq(contents(kind), before), 'the file changed')
    expected(env, v.storage, recs, 'what is served')
    if kind != 'sqlite':
        f = v.storage
        f = f.shelf.get_file() if kind == 'fs' else f.fp
        env.check(f.is_readonly() == readonly, 'read only')
    env.reach('end')


def shortest(env, kind, recs):
    """Bytes that can miss from the last transaction, at least one of it
    left."""
    a = env.blen(recs[oid8(1)])
    return a + 8 + 7 if kind == 'fs' else a + 4 + 3


def address(env):
    """Where it listens, or what it stops."""
    m = Main(env)
    Store(env, 'fs')
    stop = flag(env, 'stop')
    args = ['-s']
    where = env.choice('where', ['default', 'host', 'path', 'abstract'])
    want = {}
    if where == 'host':
        want['host'] = env.choice('host', ['127.0.0.1', '::1', 'db.example'])
        want['port'] = env.choice('port', [1, 65535])
        args += ['--host', want['host'], '--port', str(want['port'])]
    elif where == 'path':
        want['filename'] = '/tmp/sock'
        args += ['--address', '/tmp/sock']
        for o, v in (('owner', ['root', '12']), ('group', ['root', '0']),
                     ('umask', [0, 63])):
            x = env.choice(o, [None] + v)
            want[o] = x
            if x is not None:
                args += ['--' + o, str(x)]
    elif where == 'abstract':
        args += ['--address', '@name']
    recs = None
    if stop:
        args.append('--stop')
        if flag(env, 'file'):
            recs, lost = prepared(env, 'fs')
            args += ['--file', 'db']
            # it is in use
            s = Store(env, 'fs').open()
            before = contents('fs')
    m.run(*args)
    if stop:
        env.check(m.served is None and len(m.stopped) == 1, 'not stopped')
        got = m.stopped[0]
        if recs is None:
            env.check(not WORLD.fs.paths, 'a storage is opened')
        else:
            env.check(len(WORLD.fs.paths) == 1, 'a storage is opened')
            env.check(env.eq(contents('fs'), before), 'the file changed')
    else:
        env.check(not m.stopped and m.served is not None, 'not served')
        got = m.served.address
    from durus import storage_server as ss
    if where in ('default', 'host'):
        env.check(type(got) is ss.HostPortAddress, 'kind of address')
        want.setdefault('host', ss.DEFAULT_HOST)
        want.setdefault('port', ss.DEFAULT_PORT)
    elif where == 'path':
        env.check(type(got) is ss.UnixDomainSocketAddress, 'kind of address')
    else:
        env.check(type(got) is ss.UnixAbstractAddress, 'kind of address')
        env.check('name' in str(got), 'abstract name')
    for k, v in want.items():
        x = getattr(got, k)
        if k in ('owner', 'group') and v is not None and v.isdigit():
            env.check(str(x) == v, k)
        else:
            env.check(x == v, k)
    env.reach('end')


def temporary(env):
    """Without a file, what is served is new and empty."""
    m = Main(env)
    Store(env, 'fs')
    m.run('-s')
    s = m.served.storage
    env.check(lookup(s, oid8(0)) is None, 'not empty')
    oid = s.new_oid()
    rec = record(env, oid, env.blob('r', 0, 40))
    commit(s, [(oid, rec)])
    env.check(same(env, lookup(s, oid), rec), 'a record')
    env.reach('end')


def pack(env, kind, server):
    recs, lost = prepared(env, kind)
    m = Main(env)
    st = Store(env, kind)
    if server:
        v = conn.Server(env, kind)
        host = env.choice('host', [None, 'db.example'])
        port = env.choice('port', [None, 2973])
        asked = []

        def wait(*a, **k):
            asked.append(('wait', a, k))

        def client(*a, **k):
            asked.append(('client', a, k))
            return v.client()
        m.m.wait_for_server = wait
        m.m.ClientStorage = client
        args = ['-p']
        if host:
            args += ['--host', host]
        if port:
            args += ['--port', str(port)]
        m.run(*args)
        from durus.storage_server import DEFAULT_HOST, DEFAULT_PORT
        for what, a, k in asked:
            k = dict(zip(('host', 'port'), a), **k)
            env.check(k == dict(host=host or DEFAULT_HOST,
                                port=port or DEFAULT_PORT), what)
        env.check([x[0] for x in asked][-1] == 'client', 'no client')
        v.net.run(idle=40)
        s = v.storage
    else:
        m.run('-p', '--file', 'db')
        s = st.open(readonly=kind != 'sqlite')
    del recs[lost]
    expected(env, s, recs, 'after the pack')
    env.check(lookup(s, lost) is None, 'garbage is left')
    env.check(len(list(s.gen_oid_record())) == len(recs), 'how many are left')
    env.reach('packed')
    env.reach('end')


def client(env, kind):
    """The file in the console."""
    recs, lost = prepared(env, kind)
    m = Main(env)
    before = contents(kind)
    readonly = kind != 'sqlite' and flag(env, 'readonly')
    size = env.choice('cache', [None, 7])
    args = ['-c', '--file', 'db']
    if flag(env, 'class'):
        args += ['--storage-class', CLASS[kind]]
    if readonly:
        args.append('--readonly')
    if size:
        args += ['--cache_size', str(size)]

    def use(names):
        c = names['connection']
        env.check(names['root'] is c.get_root(), 'root')
        env.check(names['get'](0) is names['root'], 'get')
        expected(env, c.get_storage(), recs, 'in the console')
        env.check(c.get_cache_size() == (size or 10000), 'cache size')
        if readonly:
            names['root']['x'] = 1
            try:
                c.commit()
            except Exception:
                pass
            else:
                env.fail('read only, and stored')
    m.use = use
    m.run(*args)
    env.check(len(m.consoles) == 1, 'no console')
    if kind != 'sqlite':
        env.check(env.eq(contents(kind), before), 'the file changed')
    env.reach('end')


def client_server(env):
    v = conn.Server(env)
    c = v.connection()
    x = env.int('x', 0, 99)
    c.get_root()['x'] = x
    c.commit()
    m = Main(env)
    where = env.choice('where', ['default', 'host', 'path'])
    args, want = ['-c'], None
    from durus.storage_server import DEFAULT_HOST, DEFAULT_PORT
    want = (DEFAULT_HOST, DEFAULT_PORT)
    if where == 'host':
        want = ('db.example', 99)
        args += ['--host', want[0], '--port', '99']
    elif where == 'path':
        want = '/tmp/sock'
        args += ['--address', want]
    asked = []

    def place(address):
        if hasattr(address, 'filename'):
            return address.filename
        return (address.host, address.port)

    def wait(address):
        asked.append(place(address))

    def make(address):
        asked.append(place(address))
        return v.client()
    m.m.wait_for_server = wait
    m.m.ClientStorage = make

    def use(names):
        env.check(env.eq(names['root']['x'], x), 'what the server has')
    m.use = use
    m.run(*args)
    env.check(asked == [want, want], 'which server')
    env.check(len(m.consoles) == 1, 'no console')
    env.reach('end')


def startup(env):
    """A file that is executed first, with what the console has."""
    recs, lost = prepared(env, 'fs')
    m = Main(env)
    n = env.choice('name', ['start.py', 'my "start".py', "it's\\n.py"])
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, n)
        with open(path, 'w') as f:
            f.write('def double(n):\n    return 2 * n\n'
                    'seen = [double(21), root, connection]\n')

        def use(names):
            env.check(names.get('seen') == [
                42, names['root'], names['connection']],
                'the startup file was not executed')
            env.check(names['double'](4) == 8, 'a function of it')
        m.use = use
        m.run('-c', '--file', 'db', '--startup', path)
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    env.check(len(m.consoles) == 1, 'no console')
    env.reach('end')
