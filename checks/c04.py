"""Packing a graph of arbitrary shape, with commits at arbitrary steps of the
pack; afterwards everything reachable has its last committed record."""
from checks.graph import *

EXPECT = ['end', 'interleaved', 'removed']
BOUNDS = ('graphs of 4 objects (thorough 5) with 0-2 arbitrary references '
          'each and arbitrary data; one commit (thorough two) at any step of '
          'the pack that stores any object, a new one, or both, with '
          'arbitrary references also to objects that were unreachable; the '
          'pack of FileStorage2 and SqliteStorage pauses after each record')
ASSUMPTIONS = ['the file system is the one of vf.simfs, SQLite the one of '
               'vf.simdb (traces replayed on the real sqlite3)']
KINDS = ('fs', 'fs2', 'sqlite')


def cases(tier):
    out = []
    deep = tier == 'thorough'
    shapes = [[1, 1, 1], [2, 0, 1, 0]] if not deep else [
        [1, 1, 1, 1], [2, 1, 0, 1], [1, 1, 0, 1, 0], [2, 1, 1, 0, 0]]
    for kind in KINDS:
        for shape in shapes:
            for what in ('old', 'new', 'both', 'fresh', 'none'):
                out.append(dict(
                    name='%s-%s-%s' % (kind, ''.join(map(str, shape)), what),
                    func='pack', weight=len(shape),
                    expect=['end'] + (['interleaved'] if what != 'none'
                                      else ['removed']),
                    params=dict(kind=kind, shape=shape, what=what,
                                commits=2 if deep and what != 'none' else
                                what != 'none' and 1)))
    return out


def interleaved(g, what, serial):
    """One commit by a client, of objects it can know."""
    env = g.env
    gone = missing(g)           # no client can refer to these
    if what == 'fresh':
        # a new object, linked from the root
        g.oids.append(g.s.new_oid())
        i = len(g.oids) - 1
        made = {i: g.make(i, 1, g.n)}
        g.n = len(g.oids)
        rec = g.make(0, 1, 1)
        env.check(g.oids.index(g.oids[i]) == i, 'a new identifier')
        data = env.blob('rootdata', 0, 40)
        made[0] = (record(env, g.oids[0], data, [g.oids[i]]), [i])
        known(g, made, gone)
        g.commit(made)
        return
    made = {}
    if what in ('old', 'both'):
        i = env.choice('object%d' % serial, [
            i for i in range(len(g.fanout)) if i not in gone])
        made[i] = g.make(i, 1)
    if what in ('new', 'both'):
        i = 0
        made[i] = g.make(i, 1)
    known(g, made, gone)
    g.commit(made)


def known(g, made, gone):
    for rec, refs in made.values():
        for k in refs:
            g.env.assume(g.env.all(*[g.env.not_(g.env.eq(k, i))
                                     for i in gone]))


def missing(g):
    return [i for i in range(g.n) if lookup(g.s, g.oids[i]) is None]


def run_pack(g, what, commits):
    """-> the number of steps"""
    env = g.env
    packer = iter(g.s.get_packer())
    n = 0
    while True:
        if commits and env.choice('now%d' % n, [False, True]):
            interleaved(g, what, commits)
            env.reach('interleaved')
            commits -= 1
            continue
        try:
            next(packer)
        except StopIteration:
            break
        n += 1
    return n


def pack(env, kind, shape, what, commits):
    g = Graph(env, kind, shape)
    g.fill()
    run_pack(g, what, commits)
    live = g.reachable()
    g.check_reachable(live, 'after the pack')
    gone = [i for i in range(g.n) if lookup(g.s, g.oids[i]) is None]
    env.check(not live.intersection(gone), 'a reachable object was removed')
    if gone:
        env.reach('removed')
    if what == 'none' and env.choice('again', [False, True]):
        # again, with nothing in between
        g.s.pack()
        g.check_reachable(live, 'after another pack')
    g.s.close()
    g.open()
    g.check_reachable(live, 'after the pack and reopening')
    env.observe('gone', gone)
    env.reach('end')
