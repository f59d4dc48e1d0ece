"""Identifiers handed out by a storage through allocation, commits, packs and
reopening."""
from checks.graph import *

EXPECT = ['end', 'ok']
BOUNDS = ('files of 1100 objects and one more with any identifier above; '
          'up to 2 phases (thorough 3), each any of: a commit of any subset '
          'of the allocated identifiers, a pack (also one with an allocation '
          'and a commit at any of its steps), reopening; 3 objects with '
          'arbitrary references; 9 allocations after each phase; also '
          'existing files that hold one object with any 64-bit (sqlite 63-bit) identifier but '
          'the last 8')
ASSUMPTIONS = ['identifiers of objects removed by a pack may be used again '
               'once the removal has been reported, or the storage reopened']
KINDS = ('fs', 'fs2', 'sqlite', 'memory')


def cases(tier):
    out = []
    phases = ['commit', 'pack', 'slowpack', 'reopen']
    for kind in KINDS:
        ps = phases if kind != 'memory' else ['commit']
        for a in ps:
            for b in ps:
                for c in (ps if tier == 'thorough' else [None]):
                    hist = [x for x in (a, b, c) if x]
                    if hist == ['slowpack', 'slowpack']:
                        continue
                    out.append(dict(name='%s-%s' % (kind, '-'.join(hist)),
                                    func='history', weight=hist.count(
                                        'slowpack'),
                                    params=dict(kind=kind, hist=hist)))
    for kind in KINDS[:3]:
        out.append(dict(name='%s-crowd' % kind, func='crowd', weight=2,
                        params=dict(kind=kind, n=1100)))
        out.append(dict(name='%s-far' % kind, func='far', weight=2,
                        params=dict(kind=kind)))
    return out


class Watch(object):

    def __init__(self, g):
        self.g = g
        self.live = list(g.oids)        # handed out, not removed
        self.held = []                  # removed, not reported
        self.new = []

    def allocate(self, n):
        env, g = self.g.env, self.g
        for i in range(n):
            oid = g.s.new_oid()
            env.check(env.blen(oid) == 8, 'an identifier of 8 bytes')
            env.check(lookup(g.s, oid) is None,
                      'the identifier of a stored object was handed out')
            env.check(oid not in self.live, 'handed out twice')
            env.check(oid not in self.held,
                      'handed out before its removal was reported')
            self.live.append(oid)
            self.new.append(oid)

    def note_removed(self):
        g = self.g
        for i in list(g.model):
            oid = g.oids[i]
            if oid in self.live and lookup(g.s, oid) is None:
                self.live.remove(oid)
                self.held.append(oid)

    def sync(self):
        for oid in self.g.s.sync():
            if oid in self.held:
                self.held.remove(oid)

    def commit(self, name):
        """Any of the objects, and one that was just allocated or none."""
        g, env = self.g, self.g.env
        made = {0: g.make(0, 1, 3)}
        if self.new:
            which = env.choice(name, [None, 0, len(self.new) - 1])
            if which is not None:
                oid = self.new[which]
                del self.new[which]
                g.oids.append(oid)
                i = len(g.oids) - 1
                made[i] = (record(env, oid, env.blob('x', 0, 40)), [])
                if env.choice(name + ' linked', [False, True]):
                    made[0] = (record(env, g.oids[0], b'', [oid]), [i])
        for rec, refs in made.values():
            for k in refs:
                for j, oid in enumerate(g.oids[:3]):
                    if lookup(g.s, oid) is None:
                        env.assume(env.not_(env.eq(k, j)))
        g.commit(made)
        g.n = len(g.oids)


def history(env, kind, hist):
    g = Graph(env, kind, [1, 1, 0])
    w = Watch(g)
    g.fill()
    w.allocate(2)
    for i, what in enumerate(hist):
        if what == 'commit':
            w.commit('c%d' % i)
        elif what == 'pack':
            g.s.pack()
            w.note_removed()
            if env.choice('sync%d' % i, [False, True]):
                w.sync()
        elif what == 'slowpack':
            packer = iter(g.s.get_packer())
            done = False
            n = 0
            while True:
                if not done and env.choice('now%d.%d' % (i, n),
                                           [False, True]):
                    done = True
                    w.allocate(1)
                    w.commit('d%d' % i)
                try:
                    next(packer)
                except StopIteration:
                    break
                n += 1
            if not done:
                env.stop()
            w.note_removed()
        else:
            g.s.close()
            g.open()
            # nobody holds what was not stored
            w.live = [oid for oid in g.oids if lookup(g.s, oid) is not None]
            w.held = []
            w.new = []
        w.allocate(9)
    env.observe('new', w.live)
    env.reach('ok')
    env.reach('end')


def far(env, kind):
    """A file that holds the root and one object anywhere."""
    top = 2 ** (63 if kind == 'sqlite' else 64) - 9
    st = Store(env, kind)
    n = env.int('n', 1, top)
    far_oid = env.pack8(n)
    root = oid8(0)
    pairs = [(root, record(env, root, b'', [far_oid])),
             (far_oid, record(env, far_oid, env.blob('x', 0, 40)))]
    s = st.open()
    if kind == 'fs':
        # a commit without asking for identifiers: as from another file
        s.close()
        WORLD.fs = None
        st = Store(env, kind)
        from durus.shelf import Shelf
        shelf = Shelf('db')
        shelf.store(pairs)
        shelf.close()
        s = st.open()
    elif kind == 'fs2':
        commit(s, pairs)
        s.close()
        s = st.open()
    else:
        s.create_from_records(iter(pairs))
        if env.choice('reopen', [False, True]):
            s.close()
            s = st.open()
    got = []
    for i in range(4):
        oid = s.new_oid()
        for o in got + [root, far_oid]:
            env.check(env.not_(env.eq(o, oid)), 'handed out twice')
        got.append(oid)
    env.observe('got', got)
    env.reach('ok')
    env.reach('end')


def crowd(env, kind, n):
    """A lot of objects in one transaction, and one anywhere above."""
    st = Store(env, kind)
    s = st.open()
    oids = [s.new_oid() for i in range(n)]
    k = env.int('k', n + 1, n + 2 ** 32)
    far_oid = env.pack8(k)
    pairs = [(oid, record(env, oid, b'x')) for oid in oids]
    if kind == 'fs':
        # as from another file
        s.close()
        WORLD.fs = None
        st = Store(env, kind)
        from durus.shelf import Shelf
        shelf = Shelf('db')
        half = n // 2
        shelf.store(pairs[:half])
        shelf.store(pairs[half:] + [(far_oid, record(env, far_oid, b'y'))])
        shelf.close()
    else:
        commit(s, pairs + [(far_oid, record(env, far_oid, b'y'))])
        s.close()
    s = st.open()
    got = []
    for i in range(4):
        oid = s.new_oid()
        if isinstance(oid, bytes):
            env.check(oid not in oids, 'in use')
        else:
            env.check(env.unpack(oid) >= n, 'in use')
        env.check(env.not_(env.eq(oid, far_oid)), 'in use')
        for o in got:
            env.check(env.not_(env.eq(o, oid)), 'handed out twice')
        got.append(oid)
    env.observe('got', got)
    env.reach('ok')
    env.reach('end')
