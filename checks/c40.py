"""The cache is kept near its size."""
from checks.objs import *
from checks import conn

EXPECT = ['end']
BOUNDS = ('a root and 5 objects, referenced by the root or in a chain, any '
          'cache size from 1 to 8, any size set later from -3 to 8; any of '
          'three objects kept by the program, changed, or used in any of the last '
          'three transactions; memory and server storage')
ASSUMPTIONS = ['references are counted (CPython), so that what is dropped '
               'is gone at once']
N = 5


def fakes():
    return conn.fakes()


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for storage in ('memory', 'client'):
        for shape in ('flat', 'chain'):
            for end in ('abort', 'commit'):
                out.append(dict(name='%s-%s-%s' % (storage, shape, end),
                                func='shrink',
                                params=dict(storage=storage, shape=shape,
                                            end=end,
                                            free=4 if deep else 3)))
    for storage in ('memory', 'client'):
        out.append(dict(name='walk-' + storage, func='walk',
                        params=dict(storage=storage,
                                    length=14 if deep else 9)))
        out.append(dict(name='size-' + storage, func='resize',
                        params=dict(storage=storage)))
    return out


def build(env, storage, shape, n):
    """-> storage, identifiers (the root's first)"""
    from durus.connection import Connection
    cls = classes()['Plain']
    if storage == 'client':
        server = conn.Server(env)
        s, s2 = server.client(), server.client()
    else:
        s = s2 = Store(env, storage).open()
    c = Connection(s2)
    root = c.get_root()
    objects = []
    for i in range(n):
        o = cls()
        o.v = i
        o.next = None
        objects.append(o)
    for i in range(n):
        if shape == 'flat':
            root[str(i)] = objects[i]
        elif i:
            objects[i - 1].next = objects[i]
        else:
            root['0'] = objects[0]
    c.commit()
    return s, [root._p_oid] + [o._p_oid for o in objects]


def use(c, oid, i):
    o = c.get(oid)
    if i:
        assert o.v == i - 1
    else:
        len(o)
    return o


def loaded(c, oids):
    # looking at the cache loads nothing
    out = set()
    for i, oid in enumerate(oids):
        o = c.get_cache().get(oid)
        if o is not None and not o._p_is_ghost():
            out.add(i)
    return out


def shrink(env, storage, shape, end, free):
    """Which objects stay after a transaction and explicit shrinking."""
    from durus.connection import Connection
    s, oids = build(env, storage, shape, N)
    c = Connection(s, cache_size=100)
    last = {}
    held = []
    for i, oid in enumerate(oids):
        # two transactions before, some in the last
        if 0 < i <= free:
            last[i] = env.choice('last%d' % i, (1, 2, 3))
        else:
            last[i] = 1 + i % 2
    for t in (1, 2, 3):
        for i, oid in enumerate(oids):
            if last[i] >= t:
                # (used in each transaction up to the last)
                held.append(use(c, oid, i))
        if t < 3:
            c.abort()
    del held[:]
    what = dict((i, env.choice('do%d' % i, ('drop', 'keep', 'change')))
                for i in range(1, 3))
    kept = {}
    changed = set()
    for i in what:
        if what[i] == 'keep':
            kept[i] = c.get(oids[i])
        elif what[i] == 'change':
            o = c.get(oids[i])
            o.v = i - 1
            changed.add(i)
            last[i] = 3
            del o
    used = set(i for i in last if last[i] == 3)
    size = env.int('size', 1, 8)
    c.set_cache_size(size)

    def round_(busy, what):
        before = loaded(c, oids)
        count = c.get_cache_count()
        c.shrink_cache()
        after = loaded(c, oids)
        gone = before - after
        env.check(not (gone & busy), what + ': an object in use went')
        env.check(after <= before, what + ': an object was loaded')
        now = c.get_cache_count()
        env.check(now <= count, what + ': more objects')
        if env.concrete(env.all(count <= size)):
            env.check(not gone, what + ': objects went without need')
        elif env.concrete(env.all((count - size) * 2 >= count)):
            # all of the cache is looked at
            stay = after - busy
            env.check(env.any(now <= size, not stay),
                      what + ': too many objects stay')
            if gone and stay:
                env.check(min(last[i] for i in stay)
                          >= max(last[i] for i in gone),
                          what + ': an object used later went first')
        return now

    def settle(busy, what):
        # (each look is at two objects at least)
        for i in range(len(oids)):
            now = round_(busy, what)
        stay = loaded(c, oids) - busy
        env.check(env.any(now <= size, not stay),
                  what + ': too many objects stay at last')
        return now

    env.reach('before')
    settle(used | changed, 'in the transaction')
    for i in kept:
        env.check(c.get_cache().get(oids[i]) is kept[i],
                  'a kept object is not that of the cache')
        env.check(kept[i].v == i - 1, 'the value of a kept object')
        used.add(i)
        last[i] = 3
    before = loaded(c, oids)
    count = c.get_cache_count()
    getattr(c, end)()
    if env.concrete(env.all(count <= size)):
        if end == 'abort':
            before -= changed
        env.check(before <= loaded(c, oids), 'objects went without need')
    now = settle(set(), 'after ' + end)
    kept.clear()
    now = settle(set(), 'all dropped')
    # nothing refers to anything: the cache fits (the connection keeps
    # the root)
    env.check(now <= size, 'more objects than asked for')
    env.check(c.get_cache_count() == len(
        [o for o in c.get_cache() if o is not None]), 'the count')
    for i, oid in enumerate(oids):
        use(c, oid, i)
    env.reach('end')


def walk(env, storage, length):
    """A program that walks along a chain, ending a transaction now and
    then, does not fill the memory."""
    from durus.connection import Connection
    s, oids = build(env, storage, 'chain', length)
    size = env.int('size', 1, 4)
    c = Connection(s, cache_size=size)
    o = c.get_root()['0']
    for i in range(length):
        env.check(o.v == i, 'the value')
        o = o.next
        end = 'abort' if i < 3 else env.choice('end%d' % i,
                                               ('abort', 'commit')) \
            if i < 6 else 'commit'
        getattr(c, end)()
        # the connection keeps the root, the program one object, and one
        # that stays refers to one more
        env.check(c.get_cache_count() <= size + 4, 'the cache has grown')
    env.check(o is None, 'the end of the chain')
    env.reach('end')


def resize(env, storage):
    """The size asked for is the size, or refused."""
    from durus.connection import Connection
    s, oids = build(env, storage, 'flat', 3)
    size = env.int('size', 1, 8)
    c = Connection(s, cache_size=size)
    env.check(c.get_cache_size() == size, 'the size')
    other = env.int('other', -3, 8)
    try:
        c.set_cache_size(other)
        refused = False
    except ValueError:
        refused = True
    env.check(env.eq(other <= 0, refused), 'a size is refused')
    if refused:
        env.check(c.get_cache_size() == size, 'the size after an error')
        try:
            Connection(s, cache_size=other)
            env.fail('a connection without a cache')
        except ValueError:
            pass
    else:
        env.check(c.get_cache_size() == other, 'the new size')
    for i, oid in enumerate(oids):
        use(c, oid, i)
    c.abort()
    for i, oid in enumerate(oids):
        use(c, oid, i)
    env.reach('end')
