"""Crash points of a history of transactions."""
from checks.common import *

EXPECT = ['end', 'repaired', 'torn', 'whole']
BOUNDS = ('FileStorage and FileStorage2, created new or just packed, then 2 '
          'transactions (thorough 3) of 1-2 records with contents of any '
          'length up to 4096 bytes; a crash after every file operation, with '
          'any part of the next write, or when the file has not got its full '
          'length yet; then one more transaction')
ASSUMPTIONS = ['file operations reach the disk in order, except that the file '
               'may be short; what an fsync has covered stays']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('fs', 'fs2'):
        for packed in (False, True):
            for sizes in ([1, 2], [2, 1]) if not deep else (
                    [1, 2, 1], [2, 1, 2], [3, 3]):
                out.append(dict(
                    name='%s-%s-%s' % (kind, 'packed' if packed else 'new',
                                       ''.join(map(str, sizes))),
                    func='crash', params=dict(kind=kind, packed=packed,
                                              sizes=sizes)))
            out.append(dict(name='%s-%s-short' % (
                kind, 'packed' if packed else 'new'), func='crash',
                expect=['end', 'repaired', 'short'], params=dict(
                    kind=kind, packed=packed, sizes=[1, 2], short=True)))
    return out


def crash(env, kind, packed, sizes, short=False):
    st = Store(env, kind)
    s = st.open()
    fs = WORLD.fs
    oids = [s.new_oid() for i in range(3)]
    state = {}
    state[oids[0]] = record(env, oids[0], env.blob('root', 0, 4096))
    commit(s, list(state.items()))
    if packed:
        s.pack()
        for i in range(4):
            s.new_oid()         # the ones not stored yet
    fs.checkpoint()
    states = [dict(state)]
    done = [0]                  # length of the log when a commit returned
    for i, n in enumerate(sizes):
        pairs = [(oid, record(env, oid, env.blob('t%d.%d' % (i, j), 0, 4096)))
                 for j, oid in enumerate((oids[1:] + oids[:1])[:n])]
        commit(s, pairs)
        state.update(pairs)
        states.append(dict(state))
        done.append(len(fs.log))
        env.check(not fs.unsynced(st.path),
                  'the commit returned before its data was forced to disk')
    k = env.choice('crash', len(fs.log) + 1)
    torn = None
    if k < len(fs.log) and fs.log[k][0] == 'write':
        torn = env.int('torn', 0, env.blen(fs.log[k][3]))
        env.reach('torn')
    durable = max(i for i, n in enumerate(done) if n <= k)
    WORLD.fs = fs.crashed(k, torn)
    if short:
        # the last writes reached the disk, but not all of the new length
        env.assume(torn is None)
        synced = env.blen(fs.crashed(done[durable]).inode(st.path).data)
        inode = WORLD.fs.inode(st.path)
        n = synced + env.int('length', 0, 40000)
        env.assume(n < env.blen(inode.data))
        inode.data = env.cut(inode.data, 0, n)
        WORLD.fs.checkpoint()
        env.reach('short')
    repair = env.choice('repair', [True, False])
    try:
        s = st.open(repair=repair)
    except Exception:
        if repair:
            raise
        env.reach('refused')
        env.stop()
    env.reach('repaired' if repair else 'opened')
    got = [lookup(s, oid) for oid in oids]
    shows = [env.all(*[same(env, g, x.get(oid)) for g, oid in zip(got, oids)])
             for x in states]
    env.check(env.any(*shows[durable:]),
              'not the state after a whole number of transactions')
    if durable == len(sizes):
        env.reach('whole')
    for i in range(6):
        s.new_oid()
    oid = oids[env.choice('again', [0, 2])]
    rec = record(env, oid, env.blob('after', 0, 4096))
    commit(s, [(oid, rec)])
    s.close()
    s = st.open()
    for o, g in zip(oids, got):
        env.check(same(env, lookup(s, o), rec if o == oid else g),
                  'a transaction after the repair does not survive')
    env.observe('end', [lookup(s, oid) for oid in oids])
    env.reach('end')
