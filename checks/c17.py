"""Small caches, and what a program sees through them."""
from checks.objs import *
from checks import conn

EXPECT = ['end']
BOUNDS = ('a root and 4 objects of four classes with arbitrary numbers, any '
          'cache size from 1 to 7, programs of 5 steps (thorough 6): reading '
          'or changing an object with or without keeping it, looking it up '
          'by identifier, dropping all references, explicit shrinking, new '
          'objects, commits, aborts, changes by another client')
ASSUMPTIONS = ['references are counted (CPython), so that what is dropped '
               'is gone at once']

OPS = ('use0', 'use1', 'set0', 'set2', 'keep1', 'keep2', 'get0', 'get3',
       'drop', 'shrink', 'commit', 'abort', 'new', 'touch')
KINDS = ('Plain', 'Dict', 'List', 'Slots')


def fakes():
    return conn.fakes()


def cases(tier):
    deep = tier == 'thorough'
    out = [dict(name='%s-%s' % (a, b), func='run',
                params=dict(ops=[a, b], more=4 if deep else 2, last='commit',
                            storage='memory'))
           for a in OPS for b in OPS]
    for a in ('use0', 'set0', 'keep1', 'drop'):
        out.append(dict(name='client-' + a, func='run',
                        params=dict(ops=[a], more=2 + deep, last='other',
                                    storage='client')))
    return out


MORE = ('use0', 'set0', 'keep2', 'get0', 'drop', 'shrink', 'commit', 'abort')


def run(env, ops, more, last, storage):
    from durus.connection import Connection
    cls = classes()
    if storage == 'client':
        server = conn.Server(env)
        s, s2 = server.client(), server.client()
    else:
        s = s2 = Store(env, storage).open()
    first = Connection(s2)
    root = first.get_root()
    model = []
    oids = []
    for i, k in enumerate(KINDS):
        o = cls[k]()
        model.append(env.int('v%d' % i, 0, 99))
        put(o, 'v', model[i])
        root[str(i)] = o
    first.commit()
    oids = [root[str(i)]._p_oid for i in range(4)]
    committed = list(model)
    del root, o
    size = env.int('size', 1, 7)
    c = Connection(s, cache_size=size)
    root = c.get_root()
    held = {}
    changed = set()
    used = set()
    names = []

    def check(i, o, what):
        env.check(o._p_oid == oids[i], what + ': identity')
        if i in held:
            env.check(held[i] is o, what + ': two instances of one object')
        env.check(same(env, fetch(o, 'v'), model[i]), what + ': the value')
        env.check(o._p_is_unsaved() == (i in changed), what + ': status')
        used.add(i)

    def evicted(what):
        for i in sorted(used | changed):
            # (looking at it does not load it)
            o = c.get_cache().get(oids[i])
            env.check(o is not None and not o._p_is_ghost(),
                      what + ': an object in use was evicted')

    def step(op, n):
        if op[-1:].isdigit():
            i = int(op[-1])
        if op.startswith('use'):
            check(i, root[str(i)], 'use')
        elif op.startswith('get'):
            check(i, c.get(oids[i]), 'get')
        elif op.startswith('keep'):
            o = root[str(i)]
            check(i, o, 'keep')
            held[i] = o
        elif op.startswith('set'):
            o = root[str(i)]
            if i in held:
                env.check(held[i] is o, 'set: two instances')
            x = env.int('x%d' % n, 0, 99)
            put(o, 'v', x)
            model[i] = x
            changed.add(i)
            used.add(i)
        elif op == 'touch':
            root['1']._p_note_change()
            changed.add(1)
        elif op == 'drop':
            held.clear()
        elif op == 'shrink':
            c.shrink_cache()
            evicted('shrink')
        elif op == 'commit':
            c.commit()
            committed[:] = model
            changed.clear()
            used.clear()
        elif op == 'abort':
            c.abort()
            model[:] = committed
            changed.clear()
            used.clear()
        elif op == 'new':
            o = cls['Plain']()
            name = 'n%d' % n
            o.v = n
            root[name] = o
            names.append((name, n))
        for i in list(held):
            env.check(c.get_cache().get(oids[i]) is held[i],
                      op + ': a live object is not the one of the cache')

    ops = list(ops) + [env.choice('op%d' % i, MORE) for i in range(more)]
    for n, op in enumerate(ops):
        step(op, n)
        if op in ('abort',):
            names[:] = [m for m in names if m[0] in root]
    if last == 'other':
        # another client changes two of them
        changed_by = {}
        other = Connection(s2)
        r = other.get_root()
        for i in (0, 2):
            x = env.int('other%d' % i, 0, 99)
            put(r[str(i)], 'v', x)
            changed_by[i] = x
        other.commit()
        c.abort()
        model[:] = committed
        for i in changed_by:
            model[i] = changed_by[i]
        changed.clear()
    else:
        step('commit', 98)
    used.clear()
    fresh = Connection(s2).get_root()
    for i in range(4):
        check(i, root[str(i)], 'at the end')
        env.check(same(env, fetch(fresh[str(i)], 'v'), model[i]),
                  'at the end, for another client')
    evicted('end') if last == 'other' else None
    for name, n in names:
        env.check(root[name].v == n, 'a new object')
    env.observe('n', len(held))
    env.reach('end')
