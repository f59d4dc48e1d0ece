"""Computed attributes of two clients."""
from checks.conn import *
from checks import conn

fakes = conn.fakes
EXPECT = ['end', 'computed', 'kept']
BOUNDS = ('two clients of one server (thorough: also of FileStorage), one '
          'object with arbitrary values and an attribute computed from it, '
          'all programs of 4 steps (thorough 5): getting, changing with '
          'invalidation, invalidating only, reading, committing, aborting; '
          'then new transactions of both')
ASSUMPTIONS = ['who changes what a value is computed from invalidates it in '
               'the same transaction', 'after a conflict the client aborts']

OPS = ('a.get', 'a.change', 'a.invalidate', 'a.read', 'a.commit', 'a.abort',
       'b.get', 'b.change', 'b.commit', 'b.abort')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for a in OPS[:6]:
        for b in OPS:
            out.append(dict(name='%s-%s' % (a, b), func='run',
                            expect=['end', 'computed'],
                            params=dict(ops=[a, b], more=3 if deep else 2,
                                        kind='memory')))
    for kind in PERSISTENT_KINDS:
        out.append(dict(name=kind, func='run', expect=['end', 'computed'],
                        params=dict(ops=['a.change', 'b.get', 'a.commit'],
                                    more=1 + deep, kind=kind)))
    return out


class Client(object):

    def __init__(self, env, server, history):
        self.env = env
        self.c = server.connection()
        self.history = history
        self.begin()
        self.known = None           # the version last computed
        self.last = None            # the same, whether invalidated or not

    def begin(self):
        self.start = len(self.history) - 1
        self.seen = None
        self.own = None             # a version of its own, and not committed
        self.invalidated = False

    def see(self, v, what):
        env = self.env
        if self.own is not None:
            env.check(v == self.own, what + ': not its own change')
            return
        env.check(self.seen is None or v == self.seen,
                  what + ': of different states in one transaction')
        self.seen = v
        env.check(v in self.history[self.start:], what + ': stale')


def run(env, ops, more, kind):
    from durus.persistent import Persistent, ComputedAttribute
    from durus.error import ConflictError
    server = Server(env, kind)
    values = {0: env.int('v0', -99, 99)}
    history = [0]
    setup = server.connection()
    root = setup.get_root()
    root['x'] = Persistent()
    root['x'].n = 0
    root['x'].v = values[0]
    root['c'] = ComputedAttribute()
    setup.commit()
    cl = dict((n, Client(env, server, history)) for n in 'ab')

    def do(c, what):
        root = c.c.get_root()
        x, attr = root['x'], root['c']
        if what == 'get':
            calls = []

            def compute():
                calls.append(1)
                return (x.n, x.v)
            n, v = attr.get(compute)
            env.check(env.eq(v, values[n]), 'value')
            c.see(n, 'computed')
            again = attr.get(compute)
            env.check(again[0] == n, 'another value at once')
            env.check(len(calls) <= 1, 'computed twice')
            if not calls:
                env.check(c.last == n, 'a value that was never computed')
                env.reach('kept')
            else:
                env.reach('computed')
                env.check(c.known is None, 'computed again without need')
            c.last = n
            if calls:
                c.known = n
        elif what == 'read':
            c.see(x.n, 'read')
        elif what == 'change':
            n = len(values)
            values[n] = env.int('v%d' % n, -99, 99)
            if c.own is None:
                c.see(x.n, 'before the change')
            x.n = n
            x.v = values[n]
            attr.invalidate()
            c.known = None
            c.own = n
            c.invalidated = True
        elif what == 'invalidate':
            attr.invalidate()
            c.known = None
            c.invalidated = True

    def finish(c, commit):
        ok = True
        if commit:
            try:
                c.c.commit()
            except ConflictError:
                ok = False
        if commit and ok:
            if c.own is not None:
                history.append(c.own)
            if c.invalidated:
                for o in cl.values():
                    if o is not c:
                        o.doomed = True
        else:
            c.c.abort()
            if c.invalidated or not ok:
                c.known = None
        if getattr(c, 'doomed', False):
            # told at the end of the transaction
            c.known = None
            c.doomed = False
        c.begin()

    def step(name, what):
        c = cl[name]
        if what in ('commit', 'abort'):
            finish(c, what == 'commit')
            return
        try:
            do(c, what)
        except ConflictError:
            c.known = None
            finish(c, False)
            c.known = None

    for i in range(len(ops) + more):
        op = ops[i] if i < len(ops) else env.choice('op%d' % i, OPS)
        step(*op.split('.'))
    for name in 'ab':
        finish(cl[name], env.choice('end ' + name, [True, False]))
    for name in 'ab':
        c = cl[name]
        c.c.abort()
        if getattr(c, 'doomed', False):
            c.known, c.doomed = None, False
        c.begin()
        do(c, 'get')
        do(c, 'read')
        env.check(c.seen == history[-1], 'stale in a new transaction')
    env.observe('n', len(history))
    env.reach('end')
