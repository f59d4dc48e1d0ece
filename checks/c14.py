"""Commits that fail at any point, and their repetition."""
from checks.objs import *
from checks import conn
from checks.c03 import fault
from checks.c10 import reachable, KINDS
from vf.simfs import Torn

EXPECT = ['end', 'failed']
BOUNDS = ('a transaction of up to 4 objects, new or changed, of several '
          'classes with arbitrary numbers and links; failing at any object '
          'that can not be pickled (a bad value, or an error in '
          '__getstate__), any call of begin, store, end or new_oid of a '
          'storage, any of the first 24 file operations (FileStorage, FileStorage2), '
          'or by a conflict with another client; once or twice in a row; the '
          'commit of the root of an empty storage, repeated by another '
          'connection; '
          'without a connection: one record, any of the first 16 file '
          'operations')
ASSUMPTIONS = ['a failed file operation fails, and does not lie']

HOW = ('value', 'getstate', 'begin', 'store', 'end', 'new_oid')


def fakes():
    return conn.fakes()


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for how in HOW:
        for i in range(4):
            out.append(dict(name='%s-%d' % (how, i), func='run',
                            params=dict(how=how, shape=i,
                                        times=2 if deep else 1,
                                        storage='memory')))
    for s in ('fs', 'fs2', 'sqlite'):
        for how in ('value', 'store'):
            out.append(dict(name='%s-%s' % (s, how), func='run',
                            params=dict(how=how, shape=1, times=1,
                                        storage=s)))
    for s in ('fs', 'fs2'):
        out.append(dict(name=s + '-disk', func='disk', weight=2,
                        params=dict(storage=s)))
        out.append(dict(name=s + '-records', func='fault',
                        expect=['end', 'failed'],
                        params=dict(kind=s, n=1, packed=False)))
    for s in ('memory', 'fs', 'fs2', 'sqlite', 'client'):
        out.append(dict(name='first-' + s, func='first',
                        expect=['end', 'failed'], params=dict(storage=s)))
    for i in range(4):
        out.append(dict(name='conflict-%d' % i, func='conflict',
                        params=dict(shape=i)))
        out.append(dict(name='client-value-%d' % i, func='run',
                        params=dict(how='value', shape=i, times=1,
                                    storage='client')))
    return out


class Failure(Exception):
    pass


class Bad(object):
    """Can be pickled, or not."""
    broken = True

    def __reduce__(self):
        if Bad.broken:
            raise Failure('not now')
        return (int, (7,))


class Faults(object):
    """Calls of a storage that fail: the n-th of a kind."""

    def __init__(self, storage, how, n, c):
        self.n = n
        self.how = how
        self.fired = False
        self.on = True
        real = getattr(storage, how)

        def failing(*a, **k):
            if self.on:
                if self.n == 0:
                    self.fired = True
                    self.on = False
                    raise Failure(how)
                self.n -= 1
            return real(*a, **k)
        setattr(storage, how, failing)
        if how == 'new_oid':
            c.new_oid = failing         # the connection keeps it


def build(env, root, shape, choose=None):
    choose = choose or env.choice
    """-> the objects of the transaction, changed or new"""
    cls = classes()
    kinds = (('Plain', 'Dict', 'List'), ('Slots', 'Plain', 'Both'),
             ('List', 'List', 'Plain'), ('Dict', 'Slots', 'Dict'))[shape]
    objs = [cls[k]() for k in kinds]
    for i, o in enumerate(objs):
        put(o, 'v', env.int('v%d' % i, 0, 2 ** 40))
    old = root['old']
    targets = [None] + objs[1:] + [old]
    # a chain, or not
    root['a'] = objs[0]
    put(objs[0], 'a', objs[1])
    put(objs[1], 'a', targets[choose('link1', len(targets))])
    put(objs[2], 'a', targets[choose('link2', len(targets))])
    if choose('second', [False, True]):
        put(old, 'a', objs[2])
        put(old, 'v', env.int('vold', 0, 2 ** 40))
        return objs + [old]
    put(objs[0], 'b', objs[2])
    return objs


def setup(env, storage):
    from durus.connection import Connection
    cls = classes()
    if storage == 'client':
        server = conn.Server(env)
        s = server.client(pool=4)
        fresh = lambda: server.client()
        st = None
    else:
        st = Store(env, storage)
        s = st.open()
        fresh = lambda: s
    c = Connection(s)
    root = c.get_root()
    old = cls['Plain']()
    put(old, 'v', env.int('old', 0, 99))
    root['old'] = old
    c.commit()
    return st, s, c, root, fresh


def snapshot(s):
    return sorted(s.gen_oid_record(start_oid=oid8(0)))


def unchanged(env, s, before, what):
    now = snapshot(s)
    env.check(len(now) == len(before), what + ': number of objects')
    for (o, r), (p, q) in zip(now, before):
        env.check(o == p and env.eq(r, q), what)


def fail(env, c, objs, before, s, expected):
    """A commit that must fail, or has to. -> whether it failed"""
    try:
        c.commit()
    except expected:
        env.reach('failed')
        unchanged(env, s, before, 'stored by a commit that failed')
        return True
    return False


def run(env, how, shape, times, storage):
    from durus.connection import Connection
    st, s, c, root, fresh = setup(env, storage)
    other = fresh()
    before = snapshot(other)
    objs = build(env, root, shape)
    serial = c.get_transaction_serial()
    failed = False
    for t in range(times):
        if how in ('value', 'getstate'):
            bad = objs[env.choice('bad%d' % t, len(objs))]
            Bad.broken = True
            if how == 'value':
                put(bad, 'extra', Bad())
            else:
                def getstate():
                    raise Failure('getstate')
                bad = broken(env, objs, bad)
            failed = fail(env, c, objs, before, other, Failure)
            if not failed:
                env.check(id(bad) not in reachable(root)[0],
                          'an object that can not be stored was')
                break
            if how == 'value':
                if env.choice('mend%d' % t, [False, True]):
                    Bad.broken = False      # now it can be
                else:
                    put(bad, 'extra', None)
            else:
                repair(bad)
        else:
            f = Faults(s, how, env.choice('n%d' % t, 6), c)
            failed = fail(env, c, objs, before, other, Failure)
            f.on = False
            if not failed:
                env.check(not f.fired, 'the error of the storage is hidden')
                break
    # a new thing in between
    if failed and env.choice('more', [False, True]):
        put(objs[-1], 'b', env.int('more', 0, 9))
    c.commit()
    Bad.broken = False
    check(env, c, root, fresh, st, storage)


def broken(env, objs, o):
    """o can not give its state."""
    if not hasattr(type(o), 'Failing'):
        cls = type(o)

        class Failing(cls):
            __slots__ = []

            def __getstate__(self):
                raise Failure('getstate')
        Failing.__module__ = __name__
        Failing.__qualname__ = 'Failing'
        globals()['Failing'] = Failing
        Failing.good = cls
    o.__class__ = Failing
    return o


def repair(o):
    o.__class__ = type(o).good


def check(env, c, root, fresh, st, storage):
    from durus.connection import Connection
    live, direct = reachable(root)
    for o in live.values():
        env.check(o._p_is_saved() and o._p_oid is not None and
                  o._p_connection is c, 'not stored by the second attempt')
        env.check(c.get(o._p_oid) is o, 'the cache has another object')
    env.check(len(set(o._p_oid for o in live.values())) == len(live),
              'two objects with one identifier')
    for o in live.values():
        extra = fetch(o, 'extra')
        if isinstance(extra, Bad):
            # stored as what it becomes
            put(o, 'extra', 7)
            o._p_set_status_saved()
            c.changed.clear()
    compare(env, Connection(fresh()), root, 'after the second attempt')
    if storage in PERSISTENT_KINDS:
        s = c.get_storage()
        s.close()
        compare(env, Connection(st.open()), root, 'after reopening')
    env.observe('n', len(live))
    env.reach('end')


def disk(env, storage):
    """Any one operation on the disk fails during a commit."""
    from durus.connection import Connection
    st, s, c, root, fresh = setup(env, storage)
    before = snapshot(s)
    objs = build(env, root, 1, lambda name, n: {
        'link1': 2, 'link2': 3}.get(name) or env.choice(name, n))
    k = env.choice('operation', 24)
    count = [0]
    fired = [False]

    def fault(op):
        count[0] += 1
        if count[0] == k + 1:
            fired[0] = True
            if op[0] == 'write':
                raise Torn(env.int('torn', 0, env.blen(op[3]) - 1))
            raise OSError(5, 'Input/output error')
    WORLD.fs.fault = fault
    try:
        c.commit()
        failed = False
    except OSError as e:
        failed = True
        env.check(fired[0], 'an error without cause: %r' % (e,))
        env.reach('failed')
    WORLD.fs.fault = None
    if failed:
        unchanged(env, s, before, 'stored by a commit that failed')
        c.commit()
    elif not fired[0]:
        env.stop()
    check(env, c, root, fresh, st, storage)


def conflict(env, shape):
    """The commit conflicts; the work is repeated with the same objects."""
    from durus.connection import Connection
    from durus.error import ConflictError
    st, s, c, root, fresh = setup(env, 'client')
    other = Connection(fresh())
    before = None
    objs = build(env, root, shape)
    put(root['old'], 'b', 1)
    x = env.int('other', 0, 99)
    put(other.get_root()['old'], 'v', x)
    other.commit()
    before = snapshot(other.get_storage())
    try:
        c.commit()
        env.fail('no conflict')
    except ConflictError:
        env.reach('failed')
    other.abort()
    unchanged(env, other.get_storage(), before,
              'stored by a commit that failed')
    c.abort()
    new = [o for o in objs if o is not root['old']]
    env.check(env.eq(fetch(root['old'], 'v'), x), 'the state that won')
    for o in new:
        env.check(o._p_oid is None and o._p_is_unsaved(),
                  'a new object after a conflict')
    root['a'] = new[0]
    put(root['old'], 'a', new[-1])
    c.commit()
    check(env, c, root, fresh, st, 'client')


class Nothing(object):
    pass


def first(env, storage):
    """The commit that makes the root fails; it is opened again."""
    from durus.connection import Connection
    if storage == 'client':
        st, s = None, conn.Server(env).client(pool=4)
    else:
        st = Store(env, storage)
        s = st.open()
    how = env.choice('how', ['begin', 'store', 'end', 'new_oid'] + [
        'disk'] * (storage in ('fs', 'fs2')))
    if how == 'disk':
        k = env.choice('operation', 8)
        count = [0]

        def fault(op):
            count[0] += 1
            if count[0] == k + 1:
                if op[0] == 'write':
                    raise Torn(env.int('torn', 0, env.blen(op[3]) - 1))
                raise OSError(5, 'Input/output error')
        WORLD.fs.fault = fault
    else:
        f = Faults(s, how, 0, Nothing())
    try:
        Connection(s)
        failed = False
    except (Failure, OSError):
        failed = True
        env.reach('failed')
    if how == 'disk':
        WORLD.fs.fault = None
        if count[0] <= k:
            env.stop()
    else:
        env.check(not f.on, 'no %s' % how)
    env.check(failed, 'the error is hidden')
    env.check(lookup(s, oid8(0)) is None, 'a root is stored')
    c = Connection(s)
    env.check(len(c.get_root()) == 0, 'the new root')
    o = classes()['Plain']()
    put(o, 'v', env.int('v', 0, 99))
    c.get_root()['o'] = o
    c.commit()
    check(env, c, c.get_root(), lambda: s, st, storage)
