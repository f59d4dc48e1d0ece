"""Requests and answers in pieces."""
from checks.conn import *
from checks import conn

fakes = conn.fakes
EXPECT = ['end']
BOUNDS = ('requests: all sequences of 2 (thorough 3) requests of the client '
          'library (load of a present, missing or outdated object, commit of '
          '1-2 records, bulk load, identifiers, sync, pack), with records of '
          'any length up to 4096 bytes, in which any one send or receive of '
          'either side (thorough: any two) moves any part of the bytes; and '
          'the same with every transfer of one byte (records with up to 2 '
          'bytes of data); transfers: messages of '
          'any length up to 3 million bytes in up to 4 pieces of any size')
ASSUMPTIONS = ['bytes arrive in order and unchanged', 'a send that moves '
               'nothing happens at most 10 times in a row']

OPS = ('load', 'missing', 'stale', 'commit1', 'commit2', 'bulk', 'bulkstale',
       'bulkmissing', 'oids', 'sync', 'pack')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for a in OPS:
        out.append(dict(name='bytes-' + a, func='run',
                        params=dict(ops=[a], more=1, pieces=None)))
        for b in OPS:
            if deep or b in ('load', 'commit1', 'bulk', 'sync'):
                out.append(dict(name='%s-%s' % (a, b), func='run',
                                params=dict(ops=[a, b], more=int(deep),
                                            pieces=2 if deep else 1)))
    for kind in PERSISTENT_KINDS:
        out.append(dict(name=kind, func='run',
                        params=dict(ops=['commit2', 'bulk'], more=1,
                                    pieces=1, kind=kind)))
    for f in ('read', 'write', 'write_all', 'framed', 'short', 'stuck'):
        out.append(dict(name='transfer-' + f, func=f, params={}))
    return out


class Model(object):

    def __init__(self, env, kind, size=4096):
        self.env = env
        self.size = size
        self.server = Server(env, kind)
        self.net = self.server.net
        self.a = self.server.client(pool=3)
        self.b = self.server.client(pool=2)
        self.n = 0
        self.state = {}
        self.oids = [self.b.new_oid() for i in range(3)]
        env.check(self.oids == [oid8(i) for i in range(3)],
                  'the first identifiers')
        self.b_commit([0, 1, 2])
        self.outdated = set()
        self.a.sync()
        self.given = set(self.oids)

    def make(self, i):
        self.n += 1
        env = self.env
        r = record(env, oid8(i), env.blob('r%d' % self.n, 0, self.size),
                   [oid8((i + 1) % 3)])
        return r

    def b_commit(self, which):
        made = dict((oid8(i), self.make(i)) for i in which)
        self.b.begin()
        for oid in made:
            self.b.store(oid, made[oid])
        self.b.end(lambda oids: None)
        self.state.update(made)
        self.outdated = set(made) | getattr(self, 'outdated', set())

    def quiet(self, f):
        """f() of the other client, in one piece."""
        hooks = self.net.sent, self.net.received
        self.net.sent = self.net.received = lambda sock, n: None
        f()
        self.net.sent, self.net.received = hooks

    def do(self, op):
        from durus.error import ReadConflictError, DurusKeyError
        env, a = self.env, self.a

        def loaded(f, oids):
            """what a load of them should do"""
            try:
                got = f()
            except ReadConflictError:
                env.check(any(o in self.outdated for o in oids),
                          'a conflict without reason')
                return
            except DurusKeyError:
                env.check(any(o not in self.state for o in oids),
                          'an object is missing')
                return
            env.check(not any(o in self.outdated for o in oids),
                      'an outdated object')
            env.check(len(got) == len(oids), 'number of records')
            for o, r in zip(oids, got):
                env.check(same(env, r, self.state.get(o)), 'the record')
        if op == 'load':
            loaded(lambda: [a.load(oid8(1))], [oid8(1)])
        elif op == 'missing':
            loaded(lambda: [a.load(oid8(9))], [oid8(9)])
        elif op == 'stale':
            self.quiet(lambda: self.b_commit([1]))
            loaded(lambda: [a.load(oid8(1))], [oid8(1)])
        elif op.startswith('bulk'):
            oids = [oid8(1), oid8(0), oid8(2)]
            if op == 'bulkstale':
                self.quiet(lambda: self.b_commit([0]))
            elif op == 'bulkmissing':
                oids[1] = oid8(9)
            loaded(lambda: list(a.bulk_load(oids)), oids)
        elif op.startswith('commit'):
            told = []
            a.begin()
            made = dict((oid8(i), self.make(i))
                        for i in range(int(op[-1])))
            for oid in made:
                a.store(oid, made[oid])
            a.end(told.extend)
            env.check(set(told) == self.outdated, 'what is outdated')
            self.outdated = set()
            self.state.update(made)
        elif op == 'oids':
            for i in range(4):
                oid = a.new_oid()
                env.check(type(oid) is bytes and len(oid) == 8,
                          'an identifier')
                env.check(oid not in self.given, 'an identifier given twice')
                self.given.add(oid)
        elif op == 'sync':
            env.check(set(a.sync()) == self.outdated, 'what is outdated')
            self.outdated = set()
        elif op == 'pack':
            a.pack()


def run(env, ops, more, pieces, kind='memory'):
    m = Model(env, kind, 4096 if pieces else 2)
    net = m.net
    if pieces is None:
        # one byte at a time, for messages that are not too long
        def one(sock, n):
            return 1
        net.sent = net.received = one
    else:
        at = [env.int('at%d' % i, 0, 60) for i in range(pieces)]
        count = [0]

        def some(sock, n):
            i = count[0]
            count[0] += 1
            for p in at:
                if bool(p == i):
                    if not bool(n > 1):
                        return None
                    return env.int('k%d' % i, 1, n - 1)
            return None
        net.sent = net.received = some
    todo = list(ops) + [env.choice('op%d' % i, ('load', 'commit1', 'bulk'))
                        for i in range(more)]
    for op in todo:
        m.do(op)
    net.sent = net.received = lambda sock, n: None
    if pieces is not None:
        for p in at:
            env.assume(p < max(1, count[0]))
    # both are in step, and the storage has what was sent
    c = m.server.client()
    for oid in sorted(m.state):
        env.check(same(env, c.load(oid), m.state[oid]), 'the record stored')
    env.check(set(m.a.sync()) == m.outdated, 'what is outdated')
    for oid in sorted(m.state):
        env.check(same(env, m.a.load(oid), m.state[oid]), 'still in step')
    env.observe('n', len(m.state))
    env.reach('end')


class Wire(object):
    """A socket of which every transfer is decided by the solver."""

    def __init__(self, env, data, pieces, zeros=False):
        self.env = env
        self.data = data
        self.sent = b''
        self.pieces = pieces
        self.zeros = zeros
        self.n = 0
        self.asked = []

    def part(self, n):
        self.n += 1
        if self.n >= self.pieces:
            return n
        return self.env.int('piece%d' % self.n, 0 if self.zeros else 1, n)

    def recv(self, n):
        env = self.env
        env.check(n > 0, 'asks for nothing')
        have = env.blen(self.data)
        if not bool(have > 0):
            return b''
        if bool(have < n):
            n = have
        k = self.part(n)
        r = env.cut(self.data, 0, k)
        self.data = env.cut(self.data, k, have)
        return r

    def send(self, data):
        env = self.env
        k = self.part(env.blen(data))
        self.sent = env.cat(self.sent, env.cut(data, 0, k))
        return k


def read(env):
    from durus import utils
    data = env.blob('data', 0, 3000000)
    n = env.blen(data)
    rest = env.blob('rest', 0, 10)
    w = Wire(env, env.cat(data, rest), 4)
    env.check(env.eq(utils.read(w, n), data), 'read: the message')
    env.check(env.eq(w.data, rest), 'read: what follows')
    env.reach('end')


def write(env):
    from durus import utils
    data = env.blob('data', 0, 3000000)
    w = Wire(env, b'', 4, zeros=True)
    utils.write(w, data)
    env.check(env.eq(w.sent, data), 'write')
    env.reach('end')


def write_all(env):
    from durus import utils
    parts = [env.blob('part%d' % i, 0, 100000) for i in range(3)]
    w = Wire(env, b'', 4, zeros=True)
    utils.write_all(w, *parts)
    env.check(env.eq(w.sent, env.cat(*parts)), 'write_all')
    env.reach('end')


def framed(env):
    from durus import utils
    data = env.blob('data', 0, 3000000)
    which = env.choice('which', ['int4', 'int8'])
    w = Wire(env, b'', 3, zeros=True)
    if which == 'int4':
        utils.write_int4_str(w, data)
        got = utils.read_int4_str(Wire(env, w.sent, 4))
    else:
        utils.write_int8_str(w, data)
        got = utils.read_int8_str(Wire(env, w.sent, 4))
    env.check(env.eq(got, data), which)
    env.reach('end')


def short(env):
    """The connection ends early: an error, and no data."""
    from durus import utils
    n = env.int('n', 1, 3000000)
    data = env.blob('data', 0, 3000000)
    env.assume(env.blen(data) < n)
    w = Wire(env, data, 4)
    try:
        utils.read(w, n)
        env.fail('an incomplete message is accepted')
    except IOError:
        pass
    env.reach('end')


def stuck(env):
    """Nothing can be sent: an error in the end."""
    from durus import utils

    class Stuck(object):
        n = 0

        def send(self, data):
            self.n += 1
            if self.n > 1000:
                env.fail('tries for ever')
                env.stop()
            return 0
    try:
        utils.write(Stuck(), env.blob('data', 1, 100))
        env.fail('no error')
    except IOError:
        pass
    env.reach('end')
