"""Committed records survive; the last write of each oid wins."""
from checks.common import *

EXPECT = ['end', 'found', 'absent']
BOUNDS = ('storages: 3 objects, 2-3 transactions (thorough 4) of up to 2 '
          'records each, every choice of which objects each transaction '
          'writes, of begin/abandon/reopen between transactions; payloads are '
          'arbitrary byte strings of arbitrary length up to 4096; oids in '
          'FileStorage2/Shelf arbitrary 64-bit; Shelf base sections '
          'of 0-2 records (thorough 3), then 2 transactions (thorough 3)')
ASSUMPTIONS = [
    'file system: vf.simfs (in order, no crash); sqlite: vf.simdb statement '
    'interpreter, traces replayed on the real sqlite3']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ALL_KINDS:
        out.append(dict(name='history-%s' % kind, func='history', weight=5,
                        params=dict(kind=kind, n=3 if not deep else 4)))
    out.append(dict(name='oids-fs2', func='fs2_oids',
                    params=dict(n=3 if not deep else 4)))
    for base in [[], [0], [1], [0, 1], [2, 0]] + (
            [[3, 1, 0], [0, 5]] if deep else []):
        out.append(dict(name='shelf-base%s' % ''.join(map(str, base)),
                        func='shelf', weight=3 + sum(base),
                        params=dict(base=base, n=2 if not deep else 3)))
    return out


def history(env, kind, n):
    """n transactions over objects the storage allocated, reopened anywhere."""
    st = Store(env, kind)
    s = st.open()
    oids = [s.new_oid() for i in range(3)]
    model = env.dict()
    for i in range(n):
        what = env.choice('what%d' % i, ['a', 'b', 'ab', 'bc', 'abandon'])
        if what == 'abandon':
            # a transaction that never ends leaves nothing behind
            s.begin()
            s.store(oids[0], record(env, oids[0], env.blob('lost', 0, 4096)))
            s.begin()
            s.end()
            env.reach('abandoned')
        else:
            pairs = []
            for c in what:
                oid = oids['abc'.index(c)]
                pairs.append((oid, record(
                    env, oid, env.blob('t%d%s' % (i, c), 0, 4096),
                    [oids[0]] if c == 'b' else [])))
            commit(s, pairs)
            for oid, rec in pairs:
                model[oid] = rec
        if kind != 'memory' and env.choice('reopen%d' % i, [False, True]):
            s.close()
            s = st.open()
            if kind == 'fs':
                # objects never written have to be allocated again
                for j in range(6):
                    s.new_oid()
    for oid in oids:
        got = lookup(s, oid)
        want = model.get(oid)
        env.check(same(env, got, want), 'record lost, stale or invented')
        env.observe('got', got)
        env.reach('found' if want is not None else 'absent')
    env.reach('end')


def fs2_oids(env, n):
    st = Store(env, 'fs2')
    s = st.open()
    model = env.dict()
    for i in range(n):
        oid = env.pack8(env.int('oid', 0, 2 ** 64 - 1))
        rec = record(env, oid, env.blob('v', 0, 4096))
        commit(s, [(oid, rec)])
        model[oid] = rec
    s.close()
    s = st.open()
    q = env.pack8(env.int('q', 0, 2 ** 64 - 1))
    got, want = lookup(s, q), model.get(q)
    env.check(same(env, got, want), 'record lost, stale or invented')
    env.observe('got', got)
    env.reach('found' if want is not None else 'absent')
    seen = list(s.gen_oid_record())
    env.check(len(seen) == len(model), 'each oid once')
    for oid, rec in seen:
        env.check(oid in model and same(env, rec, model.get(oid)),
                  'iteration gives the current record')
    env.reach('end')


def shelf(env, base, n):
    """Shelf: an initial section, then transactions with arbitrary names."""
    WORLD.fs = SimFS(env)
    from durus.shelf import Shelf
    from durus.file import File
    items, model = [], env.dict()
    for i, k in enumerate(base):
        name = oid8(k)
        v = env.blob('b%d' % i, 0, 4096)
        items.append((name, v))
        model[name] = v
    f = File('db')
    for step in Shelf.generate_shelf(f, items):
        pass
    f.close()
    s = Shelf('db')
    for i in range(n):
        names = [env.pack8(env.int('n%d' % i, 0, 2 ** 64 - 1))]
        if i == 0:
            names.append(env.pack8(env.int('m%d' % i, 0, 2 ** 64 - 1)))
            env.assume(env.not_(env.eq(names[0], names[1])))
        pairs = [(name, env.blob('v', 0, 4096)) for name in names]
        triples = s.store(iter(pairs))
        env.check(len(triples) == len(pairs), 'one result per item')
        for (name, old, new), (name2, v) in zip(triples, pairs):
            env.check(env.eq(name, name2), 'result names the item')
            env.check((old is None) == (name2 not in model),
                      'old position given exactly for names already present')
        for name, v in pairs:
            model[name] = v
    if env.choice('reopen', [False, True]):
        s.close()
        s = Shelf('db')
    q = env.pack8(env.int('q', 0, 2 ** 64 - 1))
    got, want = s.get_value(q), model.get(q)
    env.check(same(env, got, want), 'value lost, stale or invented')
    env.check((q in s) == (want is not None), 'containment')
    env.observe('got', got)
    env.reach('found' if want is not None else 'absent')
    seen = list(s.items())
    env.check(len(seen) == len(model), 'each name once')
    for name, v in seen:
        env.check(name in model and same(env, v, model.get(name)),
                  'iteration gives the current value')
    env.reach('end')
