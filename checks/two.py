"""Two clients and what each may see and commit."""
from checks.conn import *
from checks import conn

fakes = conn.fakes
OPS = ('read.x', 'read.y', 'write.x', 'write.y', 'new.x', 'ahead')


class World2(object):

    def __init__(self, env, kind, names=('x', 'y')):
        from durus.persistent import Persistent
        self.env = env
        self.names = names
        self.subsets = [[n for i, n in enumerate(names) if k >> i & 1]
                        for k in range(2 ** len(names))]
        self.server = Server(env, kind)
        self.a = self.server.connection()
        self.b = self.server.connection()
        self.number = 0
        self.payload = {}
        root = self.b.get_root()
        state = {}
        for name in names:
            o = Persistent()
            root[name] = o
            self.set(o)
            state[name] = o.v
        self.b.commit()
        self.oids = dict((n, root[n]._p_oid) for n in names)
        self.history = [state]
        self.left = 0
        self.hooked = None

    def set(self, o):
        """A new value; blind."""
        env = self.env
        self.number += 1
        n = self.number
        w = env.int('w%d' % n, -2 ** 40, 2 ** 40)
        self.payload[n] = w
        o.w = w
        o.v = n
        return n

    def value(self, o):
        """The version of an object, after reading it."""
        v = o.v
        self.env.check(v in self.payload, 'a value never written')
        self.env.check(self.env.eq(o.w, self.payload[v]),
                       'the parts of one object are of different states')
        return v

    def peek(self, o):
        """The version of an object, without accessing it."""
        from durus.persistent import _getattribute
        return _getattribute(o, 'v')

    def other(self, c, which):
        """A whole transaction of the client c."""
        c.abort()
        root = c.get_root()
        state = dict(self.history[-1])
        for name in which:
            state[name] = self.set(root[name])
        c.commit()
        self.history.append(state)

    def interfere(self, sock):
        """Before a request of client A the other one may commit."""
        env = self.env
        if self.left:
            self.step += 1
            which = env.choice('other%d' % self.step, self.subsets)
            if which:
                self.left -= 1
                self.other(self.b, which)

    def allow(self, n):
        self.left = n
        self.step = getattr(self, 'step', 0)
        self.server.net.before_request = self.interfere if n else None


class Transaction(object):
    """Of the client c: what it has seen, and did."""

    def __init__(self, w, c):
        self.w = w
        self.env = w.env
        self.c = c
        self.start = len(w.history) - 1
        self.seen = {}              # name -> version first seen
        self.own = {}               # name -> version set
        self.new = []

    def object(self, name):
        return self.c.get_root()[name]

    def see(self, name, v):
        env = self.env
        if name in self.own:
            env.check(v == self.own[name], 'a client does not see its change')
            return
        if name in self.seen:
            env.check(v == self.seen[name],
                      'a value changes within a transaction')
        self.seen[name] = v
        h = self.w.history
        env.check(any(all(h[i][n] == self.seen[n] for n in self.seen)
                      for i in range(self.start, len(h))),
                  'the values read were never the committed state together')

    def do(self, op):
        from durus.persistent import Persistent
        what, dot, name = op.partition('.')
        w = self.w
        if what == 'ahead':
            for o in self.c.get_crawler(batch_size=2):
                pass
            return
        if what == 'get':
            # by its identifier, as one does who keeps it elsewhere
            self.see(name, w.value(self.c.get(w.oids[name])))
            return
        o = self.object(name)
        if what == 'read':
            self.see(name, w.value(o))
            return
        # a blind change; what is it based on?
        if what == 'new':
            p = Persistent()
            w.number += 1
            p.v = w.number
            self.new.append((name, p, p.v))
            o.link = p
        else:
            o.w = None
        if name not in self.own:
            self.see(name, w.peek(o))
        self.own[name] = w.set(o)

    def stale(self):
        now = self.w.history[-1]
        return [n for n in self.seen if now[n] != self.seen[n]]

    def commit(self):
        """-> whether it succeeded"""
        from durus.error import ConflictError
        env, w = self.env, self.w
        try:
            self.c.commit()
        except ConflictError:
            env.check(self.stale(), 'a conflict without reason')
            return False
        if self.own:
            env.check(not self.stale(), 'an update is lost, or was based on '
                      'an old state')
            state = dict(w.history[-1])
            state.update(self.own)
            w.history.append(state)
        return True


def verify(w, c, when):
    """Client c, in a new transaction, and a new client see the last state."""
    env = w.env
    last = w.history[-1]
    d = w.server.connection()
    for conn_ in (c, d):
        root = conn_.get_root()
        for n in w.names:
            o = root[n]
            env.check(w.value(o) == last[n], 'not the committed state, %s' %
                      when)
            link = getattr(o, 'link', None)
            if link is not None:
                env.check(link.v > 0, 'a new object without its state')


def run(env, kind, ops, steps, others, snapshot, names=('x', 'y'),
        more=OPS):
    from durus.error import ConflictError
    w = World2(env, kind, names)
    c = w.a
    c.abort()
    for n in w.names:
        if env.choice('loaded ' + n, [False, True]):
            c.get_root()[n].v
            c.abort()
        else:
            c.get_root()[n]
    w.allow(others)
    t = Transaction(w, c)
    ok = True
    try:
        for i in range(steps):
            op = ops[i] if i < len(ops) else env.choice('op%d' % i, more)
            t.do(op)
    except ConflictError:
        ok = False
        env.reach('read conflict')
    if ok:
        ok = t.commit()
        if not ok:
            env.reach('conflict')
        else:
            env.reach('committed')
    if not ok:
        c.abort()
        w.allow(0)
        # the work can be repeated
        t = Transaction(w, c)
        for i, op in enumerate(ops):
            t.do(op)
        env.check(t.commit(), 'the work can not be repeated')
    elif snapshot:
        # the next transaction
        t = Transaction(w, c)
        try:
            for n in w.names:
                t.do('read.' + n)
        except ConflictError:
            env.reach('read conflict')
        c.abort()
        w.allow(0)
    else:
        w.allow(0)
        c.abort()
    verify(w, c, 'afterwards')
    env.observe('n', len(w.history))
    env.reach('end')


def both(env, kind, steps):
    """Both clients do the same kind of things, in turns."""
    from durus.error import ConflictError
    w = World2(env, kind)
    cs = [w.a, w.b]
    for c in cs:
        c.abort()
    ts = [Transaction(w, c) for c in cs]
    doomed = [False, False]
    ops = ('read.x', 'write.x', 'write.y', 'commit', 'abort')
    for i in range(steps + 2):
        k = env.choice('client%d' % i, 2) if i else 0
        op = env.choice('op%d' % i, ops) if i < steps else 'commit'
        if i >= steps:
            k = i - steps
        t = ts[k]
        if op == 'abort' or doomed[k]:
            cs[k].abort()
            ts[k], doomed[k] = Transaction(w, cs[k]), False
            if op == 'abort':
                continue
            t = ts[k]
        try:
            if op != 'commit':
                t.do(op)
            elif t.commit():
                env.reach('committed')
                ts[k] = Transaction(w, cs[k])
            else:
                env.reach('conflict')
                doomed[k] = True
        except ConflictError:
            doomed[k] = True
    for k in range(2):
        cs[k].abort()
        verify(w, cs[k], 'at the end')
    env.observe('n', len(w.history))
    env.reach('end')
