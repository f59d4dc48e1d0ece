"""Clients that break off, stop, or send nonsense."""
from checks.conn import *
from checks import conn
import socket

fakes = conn.fakes
EXPECT = ['end']
BOUNDS = ('a client that breaks off (closes, resets the connection, stops '
          'sending, or stops reading) after any number of bytes of any '
          'request, with records of any length up to 4096 bytes; any byte as '
          'a command, followed by any argument, a part of one, or nothing; a commit of 1-2 '
          'entries with any stated lengths, any record and known or unknown '
          'identifiers, cut at any place; storages: MemoryStorage, '
          'FileStorage, FileStorage2, SqliteStorage; then transactions and '
          'reads of other clients, connected before and after; the same with '
          'the first client of an empty storage')
ASSUMPTIONS = ['the command Q, which ends the server, is not sent',
               'a well-formed commit of a record that is no record of its '
               'object is outside (the storage is not asked to parse it)']

OPS = ('commit1', 'commit2', 'load', 'oids', 'bulk', 'sync', 'pack', 'hello')
HOW = ('close', 'reset', 'timeout')
KINDS = ('memory', 'fs', 'fs2', 'sqlite')


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for op in OPS:
        for how in HOW:
            for kind in KINDS if op == 'commit2' or deep else ('memory',):
                out.append(dict(name='%s-%s-%s' % (op, how, kind),
                                func='cut',
                                params=dict(op=op, how=how, kind=kind)))
        out.append(dict(name=op + '-unread', func='unread',
                        params=dict(op=op, kind='memory')))
    for kind in KINDS:
        for n in (1, 2):
            out.append(dict(name='malformed-%d-%s' % (n, kind),
                            func='malformed', expect=['end', 'refused'],
                            params=dict(kind=kind, n=n)))
        out.append(dict(name='command-' + kind, func='command',
                        params=dict(kind=kind)))
        out.append(dict(name='garbage-' + kind, func='garbage',
                        params=dict(kind=kind)))
        out.append(dict(name='fresh-' + kind, func='fresh',
                        params=dict(kind=kind)))
    return out


class Setup(object):

    def __init__(self, env, kind):
        self.env = env
        self.server = Server(env, kind)
        self.net = self.server.net
        self.good = self.server.client(pool=2)
        self.n = 0
        self.oids = [self.good.new_oid() for i in range(3)]
        self.state = {}
        self.commit(self.good, range(3))

    def make(self, i):
        self.n += 1
        # (a byte tells the versions apart)
        return record(self.env, oid8(i), self.env.cat(
            bytes([self.n]), self.env.blob('r%d' % self.n, 0, 4096)),
            [oid8(1), oid8(2)] if i == 0 else [])

    def commit(self, c, which):
        made = dict((oid8(i), self.make(i)) for i in which)
        c.begin()
        for oid in made:
            c.store(oid, made[oid])
        c.end(lambda oids: None)
        self.state.update(made)

    def check(self, tried, what, improper=False, pack=1):
        """The others are served; `tried` is stored as a whole or not."""
        env = self.env
        env.check(not self.net.ended, what + ': the server has stopped')
        c = self.server.client(pool=2)
        env.check(c is not None, 'nobody is served')
        now = dict((o, lookup(c, o)) for o in self.state)
        old = [bool(same(env, now[o], self.state[o])) for o in tried or ()]
        if tried and not all(old):
            for o in tried:
                env.check(same(env, now[o], tried[o]),
                          what + ': a part of a transaction is stored')
            self.state.update(tried)
            env.reach('stored')
        for o in self.state:
            env.check(same(env, now[o], self.state[o]),
                      what + ': the state for a new client')
        if improper:
            return
        if pack:
            # it starts, as does what the server does in between
            self.good.pack()
            self.net.run(idle=pack)
            env.check(not self.net.ended, what + ': a pack stops the server')
        # transactions of those who were there, and of the new one
        self.good.sync()
        self.commit(self.good, [1])
        self.commit(c, [0, 2])
        new = [c.new_oid(), self.good.new_oid()]
        env.check(new[0] != new[1] and not set(new) & set(self.state),
                  what + ': identifiers')
        self.good.sync()
        c.sync()
        for x in (c, self.good):
            for o in self.state:
                env.check(same(env, lookup(x, o), self.state[o]),
                          what + ': a later transaction')


def attempt(m, bad, op):
    """One request of the client that breaks. -> what it tried to store"""
    env = m.env
    if op.startswith('commit'):
        made = dict((oid8(i), m.make(i)) for i in range(int(op[-1])))
        bad.begin()
        for oid in made:
            bad.store(oid, made[oid])
        m.tried = made
        bad.end(lambda oids: None)
    elif op == 'load':
        bad.load(oid8(0))
    elif op == 'oids':
        for i in range(3):
            bad.new_oid()
    elif op == 'bulk':
        list(bad.bulk_load([oid8(0), oid8(2)]))
    elif op == 'sync':
        bad.sync()
    elif op == 'pack':
        bad.pack()
    elif op == 'hello':
        m.server.client()


class Broken(Exception):
    pass


def cut(env, op, how, kind):
    m = Setup(env, kind)
    net = m.net
    bad = m.server.client(pool=2)
    limit = env.int('bytes', 0, 9000)
    left = [limit]
    m.tried = None
    sock = [bad.s]

    def sent(s, n):
        if s.server or op != 'hello' and s is not bad.s:
            return None
        sock[0] = s
        if bool(left[0] >= n):
            left[0] = left[0] - n
            return None
        if bool(left[0] > 0):
            s.out.put(env.cut(current[0], 0, left[0]))
        raise Broken()
    # (the hook needs the bytes)
    current = [None]
    from vf.net import Sock
    send = Sock.send

    class Half(Sock):
        def send(self, data, flags=0):
            current[0] = data
            return send(self, data)
    bad.s.__class__ = Half
    if op == 'hello':
        connect = net.connect

        def connect_half():
            s = connect()
            s.__class__ = Half
            return s
        net.connect = connect_half
    net.sent = sent
    try:
        attempt(m, bad, op)
        broke = False
    except Broken:
        broke = True
    net.sent = lambda s, n: None
    if op == 'hello':
        net.connect = connect
    if not broke:
        env.assume(left[0] == 0)
    # the server has what was sent; then this happens
    net.run()
    s = sock[0]
    other = [c for c in net.server.clients if c.s.inp is s.out]
    if how == 'close':
        s.close()
    elif how == 'reset':
        for c in other:
            c.s.reset = True
    else:
        for c in other:
            c.s.timed_out = True
    net.run()
    if how == 'timeout' and other and not broke:
        # nothing was expected of it
        other[0].s.timed_out = False
    m.check(m.tried, '%s after %s' % (how, op), pack=30)
    env.observe('n', [broke, len(net.server.clients)])
    env.reach('end')


def unread(env, op, kind):
    """The client is gone when the answer is sent, or a part of it."""
    m = Setup(env, kind)
    net = m.net
    bad = m.server.client(pool=2)
    m.tried = None
    at = env.int('at', 0, 8)
    count = [0]
    mine = []

    def sent(s, n):
        if s.server and (op == 'hello' or s.inp is bad.s.out):
            i = count[0]
            count[0] += 1
            if bool(at == i):
                raise BrokenPipeError(32, 'Broken pipe')
        return None
    net.sent = sent
    try:
        attempt(m, bad, op)
        env.check(bool(at >= count[0]), 'the error is not seen')
    except (IOError, AssertionError):
        pass
    net.sent = lambda s, n: None
    net.run()
    m.check(m.tried, 'not reading after ' + op)
    env.reach('end')


def malformed(env, kind, n):
    m = Setup(env, kind)
    net = m.net
    bad = m.server.client(pool=2)
    mine = bad.new_oid()
    theirs = m.good.new_oid()
    bad.sync()
    parts = []
    for i in range(n):
        oid = env.choice('oid%d' % i, [oid8(1)] if i < n - 1 else
                         [oid8(0), mine] + [oid8(2 ** 40)] * (n == 1))
        rec = record(env, oid, env.blob('rec%d' % i, 0, 3))
        rlen = 8 + env.blen(rec)
        if i == n - 1:
            rlen = env.int('rlen%d' % i, 0, 2 ** 32 - 1)
        parts += [env.pack4(rlen), oid, rec]
    data = env.cat(*parts)
    size = env.choice('cut', 28 if n == 1 else [0, 1, 12, 23, 27])
    env.assume(size <= env.blen(data))
    size = env.concrete(env.blen(data) - size)
    data = env.cut(data, 0, size)
    tried = entries(env, data, size)
    ok = tried is not None
    s = bad.s
    s.send(b'C')
    net.run()
    bad_in = s.recv(4)
    s.send(env.cat(env.pack4(size), data))
    net.run()
    if ok and not all(proper(env, o, r) for o, r in tried.items()):
        # nothing is claimed about such records, but the rest is as it was
        for o in tried:
            m.state.pop(o, None)
        m.check(None, 'a commit of an improper record', improper=True)
        env.reach('end')
        return
    if ok and oid8(2 ** 40) in tried:
        # an identifier nobody was given; FileStorage refuses it
        for o in tried:
            m.state.setdefault(o, None)
        m.check(tried, 'a surprising commit', pack=0)
    elif ok:
        m.state.update(tried)
        env.reach('accepted')
        m.check(None, 'a well-formed commit', pack=0)
    else:
        m.check(None, 'a malformed commit', pack=30)
        env.check(lookup(m.good, mine) is None, 'a part of it is stored')
        env.reach('refused')
    env.observe('ok', ok)
    env.reach('end')


def entries(env, data, size):
    """By an independent parser: {oid: record} or None."""
    pos, out = 0, {}
    while size != pos:
        if pos + 12 > size:
            return None
        rlen = env.unpack(env.cut(data, pos, pos + 4))
        if bool(rlen < 8) or bool(pos + 4 + rlen > size):
            return None
        rlen = env.concrete(rlen)
        out[plain(env.cut(data, pos + 4, pos + 12))] = \
            env.cut(data, pos + 12, pos + 4 + rlen)
        pos = pos + 4 + rlen
    return out


def proper(env, oid, rec):
    n = env.blen(rec)
    if not bool(n >= 12):
        return False
    k = n - 12 - env.unpack(env.cut(rec, 8, 12))
    return bool(env.eq(env.cut(rec, 0, 8), oid)) and bool(k >= 0) and \
        bool(k % 8 == 0)


def plain(b):
    return b if isinstance(b, bytes) else b.concrete()


def command(env, kind):
    m = Setup(env, kind)
    net = m.net
    s = net.connect()
    if env.choice('hello', [False, True]):
        s.send(b'V\0\0\0\1')
        s.recv(4)
    code = env.choice('code', 256)
    if code == ord('Q'):
        env.stop()
    s.send(bytes([code]))
    net.run()
    need = {'L': 8, 'B': 4, 'C': 4, 'V': 4}.get(chr(code))
    if need and env.choice('more', [False, True]):
        s.send(env.blob('more', 0, need))
        net.run()
    if env.choice('closed', [True, False]):
        s.close()
    else:
        # it stays, and says nothing
        for c in net.server.clients:
            if c.s.inp is s.out:
                c.s.timed_out = True
    net.run()
    for c in net.server.clients:
        c.s.timed_out = False
    m.check(None, 'a command %r' % chr(code))
    env.reach('end')


def garbage(env, kind):
    """Requests for any identifier, or a lot of them."""
    m = Setup(env, kind)
    net = m.net
    s = net.connect()
    what = env.choice('what', ['load', 'bulk', 'count'])
    if what == 'load':
        oid = env.choice('oid', [b'\xff' * 8, b'\x80' + bytes(7),
                                 b'\x7f' + b'\xff' * 7, bytes(7) + b'\x09',
                                 b'\0\0\1' + bytes(5)])
        s.send(env.cat(b'L', oid))
        net.run()
        if not s.inp.empty():
            env.check(env.eq(s.recv(1), b'K'), 'an object never stored')
    elif what == 'bulk':
        n = env.int('n', 0, 2 ** 32 - 1)
        k = env.choice('k', 3)
        s.send(env.cat(b'B', env.pack4(n), *[b'\xff' * 8] * k))
        net.run()
    else:
        n = env.choice('n', [0, 1, 255])
        s.send(env.cat(b'M', bytes([n])))
        net.run()
        if not s.inp.empty():
            got = s.recv(8 * n)
            env.check(env.blen(got) == 8 * n, 'number of identifiers')
    s.close()
    net.run()
    m.check(None, 'any %s' % what)
    env.reach('end')


def fresh(env, kind):
    """The first client of an empty storage goes, whatever it has taken."""
    server = Server(env, kind)
    net = server.net
    s = net.connect()
    s.send(b'V\0\0\0\1')
    s.recv(4)
    n = env.choice('oids', [0, 1, 3])
    how = env.choice('request', ['M', 'N']) if n else None
    if how == 'M':
        s.send(b'M' + bytes([n]))
        s.recv(8 * n)
    for i in range(n if how == 'N' else 0):
        s.send(b'N')
        s.recv(8)
    if env.choice('commit', [False, True]):
        rec = record(env, oid8(0), env.blob('rec', 0, 4096))
        data = env.cat(env.pack4(8 + env.blen(rec)), oid8(0), rec)
        size = env.blen(data)
        data = env.cat(b'C', env.pack4(size), data)
        cut = env.int('cut', 1, 5000)
        env.assume(cut < env.blen(data))
        s.send(env.cut(data, 0, cut))
    net.run()
    if env.choice('reset', [False, True]):
        for x in net.server.clients:
            x.s.reset = True
    else:
        s.close()
    net.run()
    env.check(not net.ended, 'the server has stopped')
    c = server.connection(pool=2)
    env.check(len(c.get_root()) == 0, 'the first root')
    v = env.int('v', 0, 9)
    c.get_root()['v'] = v
    c.commit()
    d = server.connection(pool=2)
    env.check(dict(d.get_root()) == dict(v=v), 'what the next client sees')
    d.get_root()['w'] = 1
    d.commit()
    c.abort()
    env.check(dict(c.get_root()) == dict(v=v, w=1), 'what the first sees')
    env.reach('end')
