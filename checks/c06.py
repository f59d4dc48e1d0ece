"""What a pack removes is reported by the synchronisations during and after
it, for a graph of arbitrary shape and commits at arbitrary steps."""
from checks.graph import *
from checks.c04 import interleaved, missing

EXPECT = ['end', 'removed', 'interleaved']
BOUNDS = ('graphs of 4 objects (thorough 5) with 0-2 arbitrary references '
          'each and arbitrary data; one commit (thorough two) at any step of '
          'the pack, of an old or a new object with arbitrary references, '
          'with or without a synchronisation; then synchronisations and a '
          'second pack')
ASSUMPTIONS = ['the file system is the one of vf.simfs, SQLite the one of '
               'vf.simdb (traces replayed on the real sqlite3)']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('fs', 'fs2', 'sqlite'):
        for shape in [[1, 1, 1], [2, 0, 1, 0]] if not deep else [
                [1, 1, 1, 1], [2, 1, 0, 1], [1, 1, 0, 1, 0]]:
            for what in ('none', 'new', 'fresh') + (('old',) if deep or
                                                    len(shape) < 4 else ()):
                out.append(dict(
                    name='%s-%s-%s' % (kind, ''.join(map(str, shape)), what),
                    func='report', weight=len(shape) + (kind == 'fs'),
                    expect=['end', 'removed'] + (
                        ['interleaved'] if what != 'none' else []),
                    params=dict(kind=kind, shape=shape, what=what,
                                commits=2 if deep and what != 'none' else
                                what != 'none' and 1)))
    return out


def report(env, kind, shape, what, commits):
    g = Graph(env, kind, shape)
    g.fill()
    env.check(list(g.s.sync()) == [], 'reported without a pack')
    reported = []

    def sync():
        oids = list(g.s.sync())
        for oid in oids:
            i = g.number(oid)
            env.check(i is not None and i in g.model,
                      'reported what is no object')
            rec = lookup(g.s, oid)
            env.check(rec is None or same(env, rec, g.model[i][0]),
                      'a reported object that is stored is stale')
            env.check(i not in reported, 'reported twice')
            reported.append(i)
        env.check(list(g.s.sync()) == [], 'reported again at once')

    packer = iter(g.s.get_packer())
    n = 0
    while True:
        if commits and env.choice('now%d' % n, [False, True]):
            interleaved(g, what, commits)
            env.reach('interleaved')
            if env.choice('sync', [False, True]):
                sync()
            commits -= 1
            continue
        try:
            next(packer)
        except StopIteration:
            break
        n += 1
    sync()
    gone = missing(g)
    for i in gone:
        env.check(i in reported, 'a removed object was not reported')
    if gone:
        env.reach('removed')
    # a second pack reports what it removes, and nothing else
    del reported[:]
    g.s.pack()
    more = [i for i in missing(g) if i not in gone]
    sync()
    for i in more:
        env.check(i in reported, 'a removed object was not reported')
    for i in reported:
        env.check(i not in gone, 'reported twice')
    env.observe('gone', [gone, more])
    env.reach('end')
