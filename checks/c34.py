"""A server with a limit after which it collects garbage by itself."""
from checks.conn import *
from checks import conn

fakes = conn.fakes
EXPECT = ['end', 'collected', 'not yet', 'within']
BOUNDS = ('1 or 2 clients; a limit of 1 to 400 bytes, or none; 3 commits '
          '(thorough 4) of a root with arbitrary data (0-60 bytes), each of '
          'which drops the object that the one before referred to and refers '
          'to a new one; after each commit 0, 1, 3 or all of the steps the '
          'server takes when nobody asks for anything; a client that comes, '
          'leaves, allocates or asks for a pack in between')
ASSUMPTIONS = ['what counts towards the limit is the records of the commits '
               'and up to 20 bytes more for each',
               'what is committed during a collection may or may not count '
               'towards the next']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in PERSISTENT_KINDS:
        for other in (None, 'leave', 'alloc', 'pack', 'read'):
            for fast in (True, False):
                if not fast and other in ('alloc', 'leave') and not deep:
                    continue
                out.append(dict(
                    name='%s-%s-%s' % (kind, other, 'idle' if fast else 'busy'),
                    func='history', weight=2 + (not fast), expect=['end'],
                    params=dict(kind=kind, other=other, fast=fast,
                                n=3 + deep)))
        out.append(dict(name='%s-none' % kind, func='never', expect=['end'],
                        params=dict(kind=kind)))
    for kind in ('memory', 'fs', 'fs2'):
        out.append(dict(name='memory' if kind == 'memory' else 'temp-' + kind,
                        func='memory', expect=['end'],
                        params=dict(kind=kind)))
    return out


class History(object):

    def __init__(self, env, kind, limit, temp=False):
        self.env = env
        self.n = 0
        storage = None
        if temp:
            # in a file that goes away
            st = Store(env, kind)
            st.path = None
            storage = st.open()
        self.server = Server(env, kind, storage, gcbytes=1)
        self.server.server.gcbytes = limit
        self.net = self.server.net
        self.c = self.server.client()
        self.lo = self.hi = 0
        self.root = self.c.new_oid()
        self.child = None
        self.want = {}              # reachable
        self.garbage = []

    def commit(self, name):
        """-> at least and at most so many bytes were committed"""
        env = self.env
        new = self.c.new_oid()
        data = env.blob(name, 0, 60)
        made = {self.root: record(env, self.root, data, [new]),
                new: record(env, new, b'child of ' + name.encode())}
        self.c.begin()
        for o in made:
            self.c.store(o, made[o])
        self.c.end(lambda oids: None)
        if self.child is not None:
            self.garbage.append(self.child)
        self.child = new
        self.want = made
        size = sum([env.blen(r) for r in made.values()])
        return size, size + 20 * len(made)

    def look(self):
        """What is reachable is there; -> the garbage that is there too"""
        env = self.env
        env.check(not self.net.ended, 'the server has stopped')
        p = self.server.client()
        for o in sorted(self.want):
            env.check(same(env, lookup(p, o), self.want[o]),
                      'an object that is referred to')
        left = [o for o in self.garbage if lookup(p, o) is not None]
        p.s.close()
        self.net.run()
        return left


def history(env, kind, other, fast, n):
    limit = env.int('limit', 1, 400)
    h = History(env, kind, limit)
    h.lo = h.hi = 0
    due = None          # the garbage a collection that is under way removes
    extra = 0           # committed since then
    client = None
    for j in range(n):
        lo, hi = h.commit('c%d' % j)
        if due is None:
            h.lo = h.lo + lo
            h.hi = h.hi + hi
            if bool(h.lo >= limit):
                due = list(h.garbage)
                extra = 0
            elif bool(h.hi >= limit):
                env.stop()      # may or may not have been enough
        else:
            extra = extra + hi
        if other == 'leave':
            if client is None:
                client = h.server.client()
            else:
                client.s.close()
                client = None
                h.net.run()
        elif other == 'alloc':
            client = client or h.server.client()
            oid = client.new_oid()
            env.check(oid not in h.want, 'an identifier in use')
        elif other == 'read':
            client = client or h.server.client()
            client.sync()
            env.check(same(env, client.load(h.root), h.want[h.root]),
                      'what a client reads')
        elif other == 'pack' and j == 1:
            # asked for as well
            client = client or h.server.client()
            client.pack()
            if due is None:
                due = list(h.garbage)
                extra = 0
        idle = 300 if fast else env.choice('idle%d' % j, [0, 1, 3, 300])
        h.net.run(idle=idle)
        left = h.look()
        if idle == 300:
            if due is not None:
                for o in due:
                    env.check(o not in left, 'garbage that is left after a '
                              'collection')
                env.reach('collected')
                h.garbage = list(left)
                due = None
                h.lo, h.hi = 0, extra
                if bool(h.hi >= limit):
                    env.stop()
            else:
                env.check(left == h.garbage,
                          'removed before the limit was reached')
                env.reach('not yet')
        elif due is not None:
            env.reach('within')
    env.reach('end')


def never(env, kind):
    """Without a limit (0, or less than that) nothing is collected."""
    limit = env.int('limit', -5, 0)
    h = History(env, kind, limit)
    for j in range(3):
        h.commit('c%d' % j)
        h.net.run(idle=env.choice('idle%d' % j, [0, 1, 300]))
    env.check(h.look() == h.garbage, 'removed, though there is no limit')
    env.reach('end')


def memory(env, kind):
    """Storages that are not packed: in memory, or in a temporary file."""
    limit = env.int('limit', 0, 400)
    h = History(env, kind, limit, temp=kind != 'memory')
    for j in range(3):
        h.commit('c%d' % j)
        if env.choice('ask%d' % j, [False, True]):
            c = h.server.client()
            c.pack()
            c.s.close()
            h.net.run()
        h.net.run(idle=env.choice('idle%d' % j, [0, 1, 300]))
        h.look()
    env.reach('end')
