"""One writer, and readers that never write."""
import os
from checks.graph import *

EXPECT = ['end', 'refused', 'let in']
BOUNDS = ('FileStorage and FileStorage2: every sequence of 4 events '
          '(thorough 5) out of committing, packing, reopening for reading, '
          'another opening for writing or reading; an attempt to open for '
          'writing between any two steps of a pack; every use of a storage '
          'open for reading, on files of arbitrary contents')
ASSUMPTIONS = ['locks are those of flock on the simulated file system',
               'an attempt inside the single step that replaces the file is '
               'outside']


def cases(tier):
    out = []
    for kind in ('fs', 'fs2'):
        out.append(dict(name=kind + '-writers', func='writers', weight=3,
                        expect=['end', 'refused', 'let in'],
                        params=dict(kind=kind,
                                    n=4 if tier == 'quick' else 5)))
        out.append(dict(name=kind + '-pack', func='packing',
                        expect=['end', 'refused', 'let in'],
                        params=dict(kind=kind)))
        for what in READER:
            out.append(dict(name='%s-reader-%s' % (kind, what),
                            func='reader', expect=['end'],
                            params=dict(kind=kind, what=what)))
        out.append(dict(name=kind + '-missing', func='absent',
                        expect=['end'], params=dict(kind=kind)))
    return out


READER = ['read', 'store', 'pack', 'packer', 'records', 'torn', 'torn-repair',
          'new_oid', 'create']


def locked(env, g, msg):
    """Nobody else can open the file for writing."""
    before = len(WORLD.fs.log)
    try:
        s = g.store.open()
    except Exception:
        env.reach('refused')
    else:
        env.fail(msg)
    env.check(len(WORLD.fs.log) == before,
              'the refused attempt changed the files')


def free(env, g):
    try:
        s = g.store.open()
    except Exception:
        env.fail('the file can not be opened after it was closed')
        env.stop()
    env.reach('let in')
    return s


def writers(env, kind, n):
    g = Graph(env, kind, [1, 1])
    g.fill()
    for i in range(n):
        what = env.choice('event%d' % i, ['commit', 'pack', 'other', 'read',
                                          'close'])
        if what == 'commit':
            g.commit({0: g.make(0, 1, 1)})
        elif what == 'pack':
            g.s.pack()
        elif what == 'other':
            locked(env, g, 'a second storage was opened for writing')
        elif what == 'read':
            r = g.store.open(readonly=True)
            env.check(same(env, lookup(r, g.oids[0]), g.model[0][0]),
                      'reading beside the writer')
            r.close()
            locked(env, g, 'the lock is gone after a reader closed')
        else:
            g.s.close()
            g.s = free(env, g)
    locked(env, g, 'a second storage was opened for writing')
    g.check_reachable(g.reachable(), 'after the attempts')
    g.s.close()
    free(env, g)
    env.reach('end')


def packing(env, kind):
    g = Graph(env, kind, [1, 1, 0])
    g.fill()
    packer = iter(g.s.get_packer())
    n = 0
    while True:
        locked(env, g, 'a second storage was opened during a pack')
        if env.choice('now%d' % n, [False, True]):
            break
        try:
            next(packer)
        except StopIteration:
            break
        n += 1
    else:
        pass
    for step in packer:
        pass
    locked(env, g, 'a second storage was opened after a pack')
    g.check_reachable(g.reachable(), 'after the pack')
    g.s.close()
    s = free(env, g)
    g.s = s
    g.check_reachable(g.reachable(), 'after the pack')
    env.reach('end')


def reader(env, kind, what):
    g = Graph(env, kind, [1, 1, 0])
    g.fill()
    if env.choice('packed', [False, True]):
        g.s.pack()
    g.s.close()
    fs = WORLD.fs
    if what.startswith('torn'):
        # the end of a transaction that was not written completely
        rest = env.blob('rest', 1, 20)
        p = fs.norm(g.store.path)
        fs.paths[p].data = env.cat(fs.paths[p].data, rest)
    before = dict((p, i.data) for p, i in fs.paths.items())
    del fs.log[:]
    live = g.reachable()
    try:
        r = g.store.open(readonly=True, repair=what == 'torn-repair')
    except Exception:
        env.check(what.startswith('torn'), 'can not be opened for reading')
        r = None
    g.s = r
    error = None
    if r is not None:
        try:
            if what == 'store':
                r.begin()
                r.store(g.oids[0], g.model[0][0])
                r.end()
            elif what == 'pack':
                r.pack()
            elif what == 'packer':
                for x in r.get_packer():
                    pass
            elif what == 'records':
                list(r.gen_oid_record())
            elif what == 'create':
                r.create_from_records(iter([(g.oids[0], g.model[0][0])]))
            elif what == 'new_oid':
                r.new_oid()
                r.sync()
        except Exception as e:
            error = e
        if what in ('store', 'create'):
            env.check(error is not None, 'a reader could %s' % what)
        elif what not in ('pack', 'packer'):
            env.check(error is None, 'a reader could not %s' % what)
        if not what.startswith('torn'):
            g.check_reachable(live, 'for a reader')
        r.close()
    env.check(sorted(before) == sorted(fs.paths),
              'a reader created or removed files')
    for p in before:
        if p in fs.paths:
            env.check(env.eq(fs.paths[p].data, before[p]),
                      'a reader changed the file')
    env.check(not [op for op in fs.log if op[0] != 'sync'],
              'a reader wrote')
    # and it leaves no lock
    if not what.startswith('torn'):
        s = free(env, g)
        s.close()
    env.reach('end')


def absent(env, kind):
    """Opening for reading what does not exist creates nothing."""
    st = Store(env, kind)
    try:
        st.open(readonly=True)
    except Exception:
        pass
    else:
        env.fail('opened what does not exist')
    env.check(not WORLD.fs.paths, 'a file was created')
    env.reach('end')
