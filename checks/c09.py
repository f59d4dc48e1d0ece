"""Traversal, the index of references and the census of a graph of arbitrary
shape."""
from checks.graph import *

EXPECT = ['end']
BOUNDS = ('graphs of 4 objects (thorough 5) with up to 6 arbitrary '
          'references, repeated references and cycles included, and '
          'arbitrary data; every starting object, batches of 1-5; the '
          'records committed at once or overwritten, packed or not')
ASSUMPTIONS = ['the file system is the one of vf.simfs, SQLite the one of '
               'vf.simdb (traces replayed on the real sqlite3)']
KINDS = ('fs', 'fs2', 'sqlite', 'memory')
SHAPES = [[1, 1, 1, 0], [2, 0, 2, 0], [0, 2, 1, 1]]
DEEP = [[1, 1, 1, 1, 0], [2, 2, 0, 1], [3, 0, 1, 1], [0, 2, 1, 1, 1]]


def cases(tier):
    out = []
    for kind in KINDS:
        for shape in SHAPES if tier == 'quick' else SHAPES + DEEP:
            name = '%s-%s' % (kind, ''.join(map(str, shape)))
            out.append(dict(name=name + '-traverse', func='traverse',
                            weight=2, params=dict(kind=kind, shape=shape)))
            out.append(dict(name=name + '-all', func='everything',
                            params=dict(kind=kind, shape=shape)))
    for kind in KINDS:
        for shape in SHAPES:
            name = '%s-%s' % (kind, ''.join(map(str, shape)))
            if kind == 'memory' and not shape[0]:
                continue
            out.append(dict(name=name + '-index', func='index', weight=2,
                            params=dict(kind=kind, shape=shape)))
        out.append(dict(name='%s-census' % kind, func='census',
                        params=dict(kind=kind)))
        out.append(dict(name='%s-crawler' % kind, func='crawler',
                        params=dict(kind=kind)))
    return out


def build(env, kind, shape):
    g = Graph(env, kind, shape)
    g.fill()
    if env.choice('again', [False, True]):
        i = len(shape) - 2
        g.commit({i: g.make(i, shape[i])})
    return g


def check_pairs(env, g, pairs, want, what):
    got = []
    for oid, rec in pairs:
        i = g.number(oid)
        env.check(i is not None, '%s: not the identifier of an object' % what)
        if i is None:
            continue
        env.check(i not in got, '%s: an object twice' % what)
        got.append(i)
        env.check(same(env, rec, g.model[i][0]), '%s: another record' % what)
    env.check(sorted(got) == sorted(want), '%s: missing or unreachable '
              'objects' % what)


def traverse(env, kind, shape):
    g = build(env, kind, shape)
    start = env.choice('start', g.n)
    batch = env.choice('batch', [1, 2, 3, 5, None])
    kw = {} if batch is None else dict(batch_size=batch)
    pairs = list(g.s.gen_oid_record(start_oid=g.oids[start], **kw))
    check_pairs(env, g, pairs, g.reachable(start), 'traversal')
    env.observe('pairs', [oid for oid, rec in pairs])
    env.reach('end')


def everything(env, kind, shape):
    """Without a start: everything stored, or what the root reaches."""
    g = build(env, kind, shape)
    if kind != 'memory' and env.choice('pack', [False, True]):
        g.s.pack()
    stored = [i for i in range(g.n) if lookup(g.s, g.oids[i]) is not None]
    pairs = list(g.s.gen_oid_record())
    if kind == 'memory':
        stored = g.reachable()
    check_pairs(env, g, pairs, stored, 'iteration')
    # bulk_load: in the order that was asked for
    some = [i for i in sorted(stored, reverse=True)]
    got = list(g.s.bulk_load([g.oids[i] for i in some]))
    env.check(len(got) == len(some), 'bulk_load: number of records')
    for i, rec in zip(some, got):
        env.check(same(env, rec, g.model[i][0]), 'bulk_load: another record')
    env.observe('pairs', [oid for oid, rec in pairs])
    env.reach('end')


def index(env, kind, shape):
    from durus.storage import get_reference_index, gen_referring_oid_record
    g = build(env, kind, shape)
    if kind == 'memory':
        # the traversal from the root is all there is
        for i in range(g.n):
            env.assume(i in g.reachable())
    refs = dict((i, [env.concrete(k) for k in g.model[i][1]])
                for i in range(g.n))
    got = get_reference_index(g.s)
    env.check(len(got) == len(set(sum(refs.values(), []))),
              'index: objects referred to')
    for j in range(g.n):
        want = sorted(i for i in range(g.n) for k in refs[i] if k == j)
        have = got.get(g.oids[j], [])
        nums = [g.number(oid) for oid in have]
        env.check(None not in nums, 'index: not the identifier of an object')
        env.check(sorted(set(nums)) == sorted(set(want)),
                  'index: referring objects')
    target = env.choice('target', g.n)
    pairs = list(gen_referring_oid_record(g.s, g.oids[target]))
    check_pairs(env, g, pairs, [i for i in range(g.n) if target in refs[i]],
                'referring objects')
    env.observe('refs', [sorted(refs[i]) for i in range(g.n)])
    env.reach('end')


def census(env, kind):
    from durus.connection import Connection
    from durus.persistent import Persistent
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.btree import BTree
    from durus.storage import get_census, gen_oid_class
    from durus.connection import gen_every_instance
    st = Store(env, kind)
    c = Connection(st.open())
    root = c.get_root()
    makers = [PersistentDict, PersistentList, Persistent]
    made = [PersistentDict]
    n = env.choice('n', 4)
    for i in range(n):
        m = makers[env.choice('class%d' % i, 3)]
        made.append(m)
        root['k%d' % i] = m()
    c.commit()
    want = {}
    for m in made:
        want[m.__name__] = want.get(m.__name__, 0) + 1
    got = get_census(c.get_storage())
    plain = dict((k if isinstance(k, str) else k.decode(), v)
                 for k, v in got.items())
    short = {}
    for k, v in plain.items():
        short[k.split('.')[-1].split('\n')[-1]] = v
    env.check(short == want, 'census')
    for oid, name in gen_oid_class(c.get_storage()):
        env.check(name in got, 'class of an object')
    m = makers[env.choice('which', 3)]
    objs = list(gen_every_instance(c, m))
    env.check(len(objs) == len([x for x in made if issubclass(x, m)]),
              'every instance')
    for o in objs:
        env.check(isinstance(o, m), 'every instance: class')
    env.observe('census', plain)
    env.reach('end')


def crawler(env, kind):
    """The crawler of a connection yields each reachable object, loaded."""
    from durus.connection import Connection
    from durus.persistent import Persistent
    st = Store(env, kind)
    c = Connection(st.open())
    objs = [Persistent() for i in range(3)]
    root = c.get_root()
    root['x'] = objs[0]
    vals = []
    for i, o in enumerate(objs):
        o.v = env.int('v%d' % i, 0, 255)
        vals.append(o.v)
        o.ref = objs[env.choice('ref%d' % i, 3)]
        o.other = root if env.choice('root%d' % i, [False, True]) else None
    c.commit()
    oid_of = [o._p_oid for o in objs]
    rid = root._p_oid
    links = dict((o._p_oid, [o.ref._p_oid] + [rid] * (o.other is not None))
                 for o in objs)
    links[rid] = [oid_of[0]]
    fresh = env.choice('fresh', [True, False])
    c2 = Connection(c.get_storage()) if fresh else c
    start = env.choice('start', [rid, objs[0].ref._p_oid] if fresh else [rid])
    if not fresh and env.choice('change', [False, True]):
        # not yet committed
        vals[0] = objs[0].v = env.int('changed', 0, 255)
    elif env.choice('touch', [False, True]):
        c2.get_root()['x'].v
    keep = not fresh or env.choice('keep', [True, False])
    ids, kept = [], []
    for o in c2.get_crawler(start, env.choice('batch', [1, 2, 100])):
        ids.append(o._p_oid)
        env.check(not o._p_is_ghost(), 'crawler: not loaded')
        env.check(o._p_connection is c2, 'crawler: of another connection')
        env.check(c2.get(o._p_oid) is o, 'crawler: a second instance')
        if o._p_oid in oid_of:
            env.check(env.eq(o.v, vals[oid_of.index(o._p_oid)]),
                      'crawler: state')
        if keep:
            kept.append(o)
    o = None
    env.check(len(set(ids)) == len(ids), 'crawler: an object twice')
    reach, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo.extend(links[i])
    env.check(set(ids) == reach, 'crawler: missing or unreachable objects')
    for o in kept:
        env.check(c2.get(o._p_oid) is o, 'crawler: a second instance')
    env.observe('ids', sorted(ids))
    env.reach('end')
