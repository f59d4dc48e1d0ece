"""Whole object graphs through commits and fresh connections."""
from checks.objs import *

EXPECT = ['end']
BOUNDS = ('graphs of 3 new objects (thorough: 4) of any of five classes '
          '(attributes, slots, slots and attributes, dictionary, list) with '
          'arbitrary numbers and arbitrary references among them, the root '
          'and nothing, directly or nested in lists, tuples and dictionaries; '
          'then a second transaction that changes any link of any object, '
          'possibly to another new object; four storage kinds; a state of '
          'more than 20000 bytes at any place in the graph')
ASSUMPTIONS = ['pickle and zlib are those of the interpreter (symbolic '
               'numbers pass through them as tokens)']

KINDS = ('Plain', 'Slots', 'Both', 'Dict', 'List')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for i, k in enumerate(KINDS):
        for j in range(5):
            ks = [k, KINDS[(i + 1) % 5], KINDS[(i + 2) % 5], KINDS[i]]
            out.append(dict(
                name='%s-%d' % (k, j), func='run',
                params=dict(storage='memory', kinds=ks[:4 if deep else 3],
                            first=j)))
    for s in PERSISTENT_KINDS:
        out.append(dict(name=s, func='run', weight=2,
                        params=dict(storage=s, kinds=['Plain', 'Dict'],
                                    first=None)))
    for b in range(2 + deep):
        out.append(dict(name='big-%d' % b, func='run',
                        params=dict(storage='memory',
                                    kinds=['Plain', 'List'] + ['Slots'] * deep,
                                    first=1, big=b)))
    out.append(dict(name='foreign', func='foreign', expect=['end'],
                    params=dict()))
    return out


def reachable(root):
    """Live objects, by plain traversal."""
    from durus.persistent import PersistentBase
    seen, todo = {}, [root]

    def links(x, out):
        if isinstance(x, PersistentBase):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                links(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                links(y, out)
    direct = {}
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        out = []
        if type(o).__name__ == 'PersistentDict':
            for k in o.keys():
                links(o[k], out)
        else:
            for f in FIELDS:
                links(fetch(o, f), out)
        direct[id(o)] = out
        todo.extend(out)
    return seen, direct


def wrap(env, name, o, shape):
    if shape == 'list':
        return [o, 1, o]
    if shape == 'nested':
        return (1, [{'k': o}])
    return o


def verify(env, st, c, root, rec, s, objs, what):
    from durus.connection import Connection
    from durus.serialize import unpack_record, split_oids
    live, direct = reachable(root)
    for o in live.values():
        env.check(o._p_oid is not None, what + ': not stored')
        env.check(o._p_connection is c, what + ': connection')
        env.check(o._p_is_saved(), what + ': not saved')
        oid, data, refs = unpack_record(s.load(o._p_oid))
        env.check(oid == o._p_oid, what + ': the identifier in the record')
        want = sorted(set(p._p_oid for p in direct[id(o)] if p is not o))
        env.check(split_oids(refs) == want, what + ': the references stored')
    for o in objs:
        if id(o) not in live:
            env.check(o._p_oid is None or o._p_oid in rec.before,
                      what + ': an object nothing refers to is stored')
    env.check(len(set(o._p_oid for o in live.values())) == len(live),
              what + ': two objects with one identifier')
    del rec.stored[:]
    c.commit()
    env.check(not rec.stored, what + ': stored again without a change')
    fresh = Connection(s)
    compare(env, fresh, root, what)
    rec.before = set(o._p_oid for o in objs if o._p_oid is not None)


def run(env, storage, kinds, first, big=None):
    import random
    from durus.connection import Connection
    cls = classes()
    st = Store(env, storage)
    s = st.open()
    c = Connection(s)
    rec = Recorder(s)
    rec.before = set()
    root = c.get_root()
    objs = [cls[k]() for k in kinds]
    n = len(objs)
    for i, o in enumerate(objs):
        put(o, 'v', env.int('v%d' % i, -2 ** 40, 2 ** 40))
        if big == i:
            put(o, 'extra', random.Random(1).randbytes(21000))
    # links; the first object is linked from the root
    targets = objs + [root, None]
    root['a'] = objs[0]
    for i, o in enumerate(objs):
        for f in ('a', 'b')[:2 if i == 0 else 1]:
            if (i, f) == (0, 'a') and first is not None:
                t = targets[min(first, len(targets) - 1)]
            else:
                t = targets[env.choice('%s%d' % (f, i), len(targets))]
            shape = None
            if t is not None and (i, f) == (0, 'b'):
                shape = (None, 'list', 'nested')[(first or 0) % 3]
            if t is not None:
                put(o, f, wrap(env, f, t, shape))
    if env.choice('second', [False, True]):
        root['b'] = objs[-1]
    c.commit()
    verify(env, st, c, root, rec, s, objs, 'first commit')
    # a change of one link of a stored object
    live, direct = reachable(root)
    which = [o for o in objs if id(o) in live]
    o = which[env.choice('changed', len(which))]
    new = cls[kinds[0]]()
    put(new, 'v', env.int('vn', 0, 9))
    t = [objs[0], objs[-1], new, None][env.choice('to', 4)]
    put(o, 'a', t)
    if t is new and env.choice('back', [False, True]):
        put(new, 'a', o)
    c.commit()
    verify(env, st, c, root, rec, s, objs + [new], 'second commit')
    if storage in PERSISTENT_KINDS:
        live, direct = reachable(root)
        s.close()
        s2 = st.open()
        compare(env, Connection(s2), root, 'after reopening')
    env.observe('n', len(reachable(root)[0]))
    env.reach('end')


def foreign(env):
    """An object of another connection is refused, and nothing is stored."""
    from durus.connection import Connection
    cls = classes()
    st = Store(env, 'memory')
    s = st.open()
    c, d = Connection(s), Connection(s)
    rec = Recorder(s)
    x = cls['Plain']()
    d.get_root()['x'] = x
    d.commit()
    s2 = st.open()
    e = Connection(s2)
    rec2 = Recorder(s2)
    chain = [cls[k]() for k in ('Plain', 'Dict', 'List')]
    before = [(o, r) for o, r in s2.gen_oid_record(start_oid=oid8(0))]
    where = env.choice('where', 3)
    for i in range(2):
        put(chain[i], 'a', chain[i + 1])
    put(chain[where], 'b', x)
    put(chain[0], 'v', env.int('v', 0, 9))
    e.get_root()['c'] = chain[0]
    try:
        e.commit()
    except ValueError:
        pass
    else:
        env.fail('an object of another connection was accepted')
    env.check(x._p_connection is d, 'it changed hands')
    env.check([(o, r) for o, r in s2.gen_oid_record(start_oid=oid8(0))] ==
              before, 'stored nevertheless')
    # without it the commit works
    put(chain[where], 'b', None)
    e.commit()
    compare(env, Connection(s2), e.get_root(), 'without it')
    env.reach('end')
