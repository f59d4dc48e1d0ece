"""Identifiers handed out by the server to two clients, through commits,
packs that remove objects, disconnections, and commits that use the
identifiers of the other client."""
from checks.conn import *
from checks import conn

fakes = conn.fakes
EXPECT = ['end']
BOUNDS = ('two clients with pools of 1 or 2 identifiers; 4 objects with '
          'arbitrary references (of the root only, if operations run within a '
          'pack); 2 phases (thorough 3), each any of: an '
          'allocation, a commit of a new object (linked or not) by either '
          'client, a commit with the identifier of the other, one that '
          'drops the references of the root, a pack with any of these at any '
          'of its steps, a sync, leaving and coming again; then 3 '
          'allocations by each client, told about removals or not; requests '
          'for any number (0-255) of identifiers in small storages')
ASSUMPTIONS = ['identifiers that a client had not used when it left may be '
               'handed out again',
               'identifiers are those of the storage: C07 has the histories '
               'of one storage, this the bookkeeping of the server']
KINDS = ('fs', 'fs2', 'sqlite', 'memory')
OPS = ('alloc', 'new', 'foreign', 'drop', 'pack', 'slowpack', 'sync', 'leave')


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in KINDS:
        for a in OPS:
            if kind == 'memory' and 'pack' in a:
                continue
            for b in OPS if kind == 'fs' else (None,):
                if a == b == 'slowpack':
                    continue
                out.append(dict(
                    name='%s-%s-%s' % (kind, a, b or 'any'), func='history',
                    weight=1 + 2 * (a, b).count('slowpack'),
                    params=dict(kind=kind, ops=[a] + ([b] if b else []),
                                n=2 + deep)))
        out.append(dict(name='count-' + kind, func='count',
                        params=dict(kind=kind)))
        out.append(dict(name='foreign-' + kind, func='foreign',
                        expect=['end', 'refused'], params=dict(kind=kind)))
    return out


class Clients(object):

    def __init__(self, env, kind, fixed=False):
        self.env = env
        self.kind = kind
        self.server = Server(env, kind)
        self.net = self.server.net
        self.n = 0
        self.c = [None, None]
        self.pool = 1 + (kind == 'fs')
        self.unused = [[], []]      # handed out to each, not stored yet
        self.untold = [set(), set()]
        self.join(0)
        self.join(1)
        self.stored = []
        oids = [self.new(0) for i in range(4)]
        # the root and the next refer to anything; the last two to nothing
        refs = [[self.ref('ref%d' % i, oids)] if i < 2 else []
                for i in range(4)]
        if fixed:
            refs[1] = [oids[2]]
        self.commit(0, dict((o, self.make(o, r))
                            for o, r in zip(oids, refs)))
        self.root = oids[0]

    def ref(self, name, oids):
        return self.env.pack8(self.env.int(name, 0, len(oids) - 1))

    def make(self, oid, refs=()):
        self.n += 1
        return record(self.env, oid,
                      self.env.blob('r%d' % self.n, 0, 40), refs)

    def join(self, i):
        self.c[i] = self.server.client(pool=self.pool)
        self.unused[i] = []
        self.untold[i] = set()

    def new(self, i):
        """The client asks; what it gets is checked."""
        env = self.env
        had = list(self.c[i].oid_pool)
        oid = self.c[i].new_oid()
        if not had:
            for o in [oid] + list(self.c[i].oid_pool):
                self.handed_out(o)
                self.unused[i].append(o)
        return oid

    def handed_out(self, oid):
        env = self.env
        env.check(env.blen(oid) == 8, 'the length of an identifier')
        for u in self.unused:
            env.check(oid not in u, 'the identifier of a client is handed '
                      'out again')
        for u in self.untold:
            env.check(oid not in u, 'a client was not told yet that this '
                      'was removed')
        env.check(oid not in self.stored, 'this is in use')

    def probe(self, oids):
        p = self.server.client()
        out = [lookup(p, o) is not None for o in oids]
        p.s.close()
        self.net.run()
        return out

    def told(self, i, oids):
        self.untold[i].difference_update(oids)

    def commit(self, i, made):
        c = self.c[i]
        c.begin()
        for o in made:
            c.store(o, made[o])
        c.end(lambda oids: self.told(i, oids))
        for o in made:
            if o in self.unused[i]:
                self.unused[i].remove(o)
            if o not in self.stored:
                self.stored.append(o)

    def sync(self, i):
        self.told(i, self.c[i].sync())

    def note_removed(self):
        """After a pack."""
        for o, there in zip(list(self.stored), self.probe(self.stored)):
            if not there:
                self.stored.remove(o)
                for i in (0, 1):
                    self.untold[i].add(o)
                self.env.reach('removed')

    def alive(self, oids):
        return [o for o, there in zip(oids, self.probe(oids)) if there]

    def op(self, what, name):
        env = self.env
        if what == 'pack':
            self.c[0].pack()
            self.net.run(idle=200)
            self.note_removed()
            return
        if what == 'slowpack':
            self.c[1].pack()
            n = env.choice(name + ' steps', [0, 1, 3])
            self.net.run(idle=n)
            self.op(('alloc', 'new', 'sync', 'leave', 'drop')[
                env.choice(name + ' in', 5)], name + '*')
            self.net.run(idle=200)
            self.note_removed()
            return
        i = env.choice(name + ' who', 2)
        if what == 'alloc':
            self.new(i)
        elif what == 'new':
            o = self.new(i)
            made = {o: self.make(o)}
            if env.choice(name + ' link', [False, True]):
                made[self.root] = self.make(self.root, [o])
            self.commit(i, made)
        elif what == 'drop':
            self.commit(i, {self.root: self.make(self.root, [])})
        elif what == 'sync':
            self.sync(i)
        elif what == 'leave':
            self.c[i].close()
            self.net.run()
            self.join(i)
        elif what == 'foreign':
            other = self.new(1 - i)
            refused(self, i, {other: self.make(other),
                              self.root: self.make(self.root, [other])})
            env.check(self.probe([other]) == [False], 'stored after all')
            self.join(i)


def refused(m, i, made):
    env = m.env
    c = m.c[i]
    c.begin()
    for o in made:
        c.store(o, made[o])
    try:
        c.end(lambda oids: None)
    except Exception:
        env.reach('refused')
    else:
        env.fail('a commit with the identifier of another client')
    c.s.close()
    m.net.run()
    env.check(not m.net.ended, 'the server has stopped')


def history(env, kind, ops, n):
    m = Clients(env, kind, fixed='slowpack' in ops)
    for j in range(n):
        if j < len(ops):
            what = ops[j]
        else:
            what = env.choice('op%d' % j, [
                o for o in OPS if o != 'slowpack' and
                (kind != 'memory' or 'pack' not in o)])
        m.op(what, 'p%d' % j)
    if env.choice('sync', [False, True]):
        m.sync(0)
        m.sync(1)
    for j in range(3):
        for i in (0, 1):
            m.new(i)
    # what they hold can be used
    for i in (0, 1):
        o = m.unused[i][-1]
        rec = m.make(o)
        m.commit(i, {o: rec})
        p = m.server.client()
        env.check(same(env, lookup(p, o), rec), 'a new object')
    env.observe('unused', m.unused)
    env.reach('end')


def count(env, kind):
    """The raw requests, N and M with any count."""
    m = Clients(env, kind)
    s = m.net.connect()
    n = env.choice('n', [None, 0, 1, 2, 3, 127, 128, 255])
    if n is None:
        s.send(b'N')
        n = 1
    else:
        s.send(b'M' + bytes([n]))
    m.net.run()
    got = s.recv(8 * n) if n else b''
    env.check(env.blen(got) == 8 * n, 'the number of identifiers')
    env.check(s.inp.empty(), 'more than that')
    oids = [env.cut(got, 8 * k, 8 * k + 8) for k in range(n)]
    oids = [o if isinstance(o, bytes) else o.concrete() for o in oids]
    env.check(len(set(oids)) == n, 'one of them twice')
    for o in oids[:3] + oids[-1:]:
        m.handed_out(o)
    m.unused.append(oids)
    for j in range(3):
        for i in (0, 1):
            m.new(i)
    env.reach('end')


def foreign(env, kind):
    """Among 1-3 records of a commit, any one is of another client."""
    m = Clients(env, kind)
    k = 1 + env.choice('records', 3)
    at = env.choice('at', k)
    other = m.new(0)
    used = env.choice('used', [False, True])
    if used:
        # stored by its owner: now it belongs to all
        m.commit(0, {other: m.make(other)})
        m.sync(1)
    oids = [m.new(1) for j in range(k)]
    oids[at] = other
    made = dict((o, m.make(o)) for o in oids)
    if used:
        m.commit(1, made)
    else:
        refused(m, 1, made)
        env.check(not any(m.probe(oids)), 'stored after all')
        # the owner may still use it
        m.commit(0, {other: m.make(other)})
    env.check(m.probe([other]) == [True], 'stored')
    env.reach('end')
