"""Crash points of a pack."""
from checks.graph import *
from checks.c04 import interleaved, missing

EXPECT = ['end', 'before', 'after']
BOUNDS = ('FileStorage and FileStorage2: graphs of 4 objects '
          'with 0-2 arbitrary references and arbitrary data, packed without '
          'another commit, of 3 with a commit at any step (thorough 4); a crash after every file '
          'operation of the pack, with any part of the next write; then '
          '(without another commit; thorough always) a transaction, reopening '
          'and another pack')
ASSUMPTIONS = ['file operations reach the disk in order; what an fsync has '
               'covered stays', 'SqliteStorage relies on SQLite for this']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('fs', 'fs2'):
        for shape in [[1, 1, 0], [2, 0, 1, 0]] + ([[1, 1, 1]] if deep else []):
            for what in ('none', 'new', 'fresh') + (('old',) if deep
                                                    else ()):
                if not deep and (what != 'none' and len(shape) > 3 or
                                 kind == 'fs' and what == 'fresh'):
                    continue
                if not deep and kind == 'fs' and what == 'new':
                    shape = [1, 0]
                out.append(dict(
                    name='%s-%s-%s' % (kind, ''.join(map(str, shape)), what),
                    func='crash', weight=len(shape) + (kind == 'fs'),
                    expect=['end', 'before', 'after'],
                    params=dict(kind=kind, shape=shape, what=what,
                                more=deep or what == 'none')))
    return out


def crash(env, kind, shape, what, more):
    g = Graph(env, kind, shape)
    g.fill()
    fs = WORLD.fs
    path = fs.norm(g.store.path)
    fs.checkpoint()
    bad = []

    def watch(op):
        if op[0] in ('rename', 'replace') and fs.norm(op[2]) == path:
            if fs.unsynced(op[1]):
                bad.append(op)
    fs.fault = watch
    states = [(0, dict(g.model))]
    s = g.s
    packer = iter(s.get_packer())
    n, todo, begun = 0, what != 'none', 0
    while True:
        if todo and env.choice('now%d' % n, [False, True]):
            begun = len(fs.log)
            interleaved(g, what, 0)
            states.append((len(fs.log), dict(g.model)))
            todo = False
            continue
        try:
            next(packer)
        except StopIteration:
            break
        n += 1
    if todo:
        env.stop()
    fs.fault = None
    env.check(not bad, 'the new file takes the place of the old one before '
              'it is on disk')
    s.close()
    k = env.choice('crash', len(fs.log) + 1)
    env.assume(k >= begun)      # a crash before that is another case
    torn = None
    if k < len(fs.log) and fs.log[k][0] == 'write':
        torn = env.int('torn', 0, env.blen(fs.log[k][3]))
    # a commit that has returned is there; one being written may be
    sure = max(i for i, (at, m) in enumerate(states) if at <= k)
    WORLD.fs = now = fs.crashed(k, torn)
    names = [p for p in now.paths]
    env.reach('before' if k < len(fs.log) else 'after')
    live = []
    for at, model in states:
        g.model = model
        live.append(g.reachable())

    def shows(s, at_least):
        g.s = s
        ok = []
        for (at, model), seen in list(zip(states, live))[at_least:]:
            ok.append(env.all(*[same(env, lookup(s, g.oids[i]), model[i][0])
                                for i in sorted(seen)]))
        return env.any(*ok)
    if path not in names:
        # being replaced: the old file and the new one are both complete
        env.reach('replaced')
        env.check(len(names) > 0, 'no file is left')
        for p in names:
            g.store.path = p
            s = g.open(repair=False)
            env.check(shows(s, sure), 'the file %s is not complete' %
                      p.replace(path, ''))
            s.close()
        env.reach('end')
        return
    s = g.open(repair=True)
    env.check(shows(s, sure), 'a committed reachable object is lost')
    which = 0
    if len(states) > 1 and not (sure == 0 and shows(s, 1) is False):
        which = sure
        if sure == 0 and bool(shows(s, 1)):
            which = 1
    g.model = dict(states[which][1])
    if not more:
        env.reach('end')
        return
    oid = g.oids[0]
    for i in range(6):
        s.new_oid()
    rec, refs = g.model[0]
    rec = record(env, oid, env.blob('after', 0, 40), [
        g.oids[env.concrete(x)] for x in refs])
    commit(s, [(oid, rec)])
    g.model[0] = (rec, refs)
    seen = g.reachable()
    g.check_reachable(seen, 'after the crash and a commit')
    s.close()
    s = g.open()
    g.check_reachable(seen, 'after the crash, a commit and reopening')
    # what is left beside the file is no hindrance
    s.pack()
    g.check_reachable(seen, 'after the crash and another pack')
    s.close()
    g.open()
    g.check_reachable(seen, 'after the crash, another pack and reopening')
    env.reach('end')
