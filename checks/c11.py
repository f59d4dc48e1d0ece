"""Aborts after arbitrary programs."""
from checks.objs import *

EXPECT = ['end']
BOUNDS = ('programs of up to 3 operations (thorough 4; reads, changes, '
          'deletions, new objects, new references, explicit notes of change, '
          'a commit in between) on a root dictionary, an object with '
          'attributes, one with slots, a PersistentDict, PersistentList, '
          'PersistentSet and BTree, each loaded before or not, with arbitrary '
          'numbers; then an abort, reads through the same objects, a commit, '
          'and a fresh connection; 3 objects that were read, changed or not '
          'loaded, any of which another client changes before the client '
          'reads more, commits (conflicts included) and aborts')
ASSUMPTIONS = ['programs change objects through their own operations '
               '(a list inside of an attribute is changed with a note)']

OPS = ('attr', 'newattr', 'delattr', 'slot', 'delslot', 'item', 'delitem',
       'update', 'append', 'popped', 'sort', 'add', 'discard', 'tree',
       'deltree', 'root', 'delroot', 'link', 'inner', 'read', 'computed')


def cases(tier):
    deep = tier == 'thorough'
    return [dict(name='%s-%s' % (a, b), func='run',
                 params=dict(ops=[a, b] + ['commit'] * 0, more=2 + deep))
            for a in OPS for b in ('commit',) + OPS[::3]] + \
        [dict(name='fresh-' + s, func='run',
              params=dict(ops=['attr', 'tree'], more=1, storage=s))
         for s in ('fs', 'fs2', 'sqlite', 'client')] + \
        [dict(name='others-%s' % k, func='others', params=dict(kind=k), weight=3)
         for k in ('memory', 'sqlite')]


MORE = ('none', 'attr', 'item', 'link', 'root', 'commit', 'abort')


class Objects(object):

    def __init__(self, env, c):
        from durus.btree import BTree
        from durus.persistent_set import PersistentSet
        cls = classes()
        self.env = env
        self.c = c
        root = self.root = c.get_root()
        p = root['p'] = cls['Plain']()
        p.v = env.int('v', 0, 99)
        p.inner = [1, 2]
        q = root['q'] = cls['Slots']()
        q.v = env.int('q', 0, 99)
        d = root['d'] = cls['Dict']()
        d['k'] = env.int('d', 0, 99)
        l = root['l'] = cls['List']()
        l.append(env.int('l', 0, 99))
        l.append(5)
        s = root['s'] = PersistentSet()
        s.add(1)
        t = root['t'] = BTree()
        for i in range(3):
            t[i] = i
        c.commit()

    def state(self, root=None):
        """What the objects show, as plain values; a new list."""
        root = root or self.root
        p, q, d, l, s, t = [root.get(k) for k in 'pqdlst']
        out = [('keys', sorted(root.keys()))]
        if p is not None:
            names = [n for n in ('v', 'w', 'link', 'inner') if hasattr(p, n)]
            out.append(('p', names))
            for n in names:
                x = getattr(p, n)
                if n == 'link':
                    x = (x.v, x._p_oid)
                out.append((n, tuple(x) if n == 'inner' else x))
        if q is not None:
            for n in ('a', 'v'):
                out.append(('q', getattr(q, n) if hasattr(q, n) else 'none'))
        out.append(('d', sorted(d.keys())))
        for k in sorted(d.keys()):
            out.append((k, d[k]))
        out.append(('l', len(l)))
        for x in l:
            out.append(('l', x))
        out.append(('s', sorted(s)))
        out.append(('t', list(t.items())))
        if 'n' in root:
            out.append(('n', (root['n'].v, root['n']._p_oid)))
        return out

    def do(self, op, n):
        env, root = self.env, self.root
        from durus.persistent import ComputedAttribute
        cls = classes()
        x = env.int('x%d' % n, 0, 99)
        p, q, d, l, s, t = [root.get(k) for k in 'pqdlst']
        if op == 'none' or op == 'abort':
            pass
        elif op == 'attr':
            p.v = x
        elif op == 'newattr':
            p.w = x
        elif op == 'delattr':
            if hasattr(p, 'v'):
                del p.v
        elif op == 'slot':
            q.a = x
        elif op == 'delslot':
            if hasattr(q, 'v'):
                del q.v
        elif op == 'item':
            d['k'] = x
        elif op == 'delitem':
            d.pop('k', None)
        elif op == 'update':
            d.update({'m': x})
        elif op == 'append':
            l.append(x)
        elif op == 'popped':
            if len(l):
                l.pop()
        elif op == 'sort':
            l.sort()
        elif op == 'add':
            s.add(7)
        elif op == 'discard':
            s.discard(1)
        elif op == 'tree':
            for i in range(40):
                t[10 + i] = i
        elif op == 'deltree':
            t.clear()
        elif op == 'root':
            o = cls['Plain']()
            o.v = x
            root['n'] = o
        elif op == 'delroot':
            if 'n' in root:
                del root['n']
            else:
                root['p'].v = x
                root['z'] = 1
        elif op == 'link':
            o = cls['Slots']()
            o.v = x
            p.link = o
        elif op == 'inner':
            p.inner.append(3)
            p._p_note_change()
        elif op == 'read':
            self.state()
        elif op == 'computed':
            root['c'] = 3
            p.v = p.v
        elif op == 'commit':
            self.c.commit()
        else:
            raise ValueError(op)


def equal(env, a, b, what):
    env.check(len(a) == len(b), what + ': number of values')
    for (n, x), (m, y) in zip(a, b):
        env.check(n == m, what + ': which values')
        env.check(env.eq(x, y), what + ': the value of %s' % n)


def run(env, ops, more, storage='memory'):
    from durus.connection import Connection
    if storage == 'client':
        from checks import conn
        server = conn.Server(env)
        s = server.client()
    else:
        st = Store(env, storage)
        s = st.open()
    o = Objects(env, Connection(s))
    # continue with objects that are not loaded, or are
    rec = Recorder(s)
    c = Connection(s)
    o.c, o.root = c, c.get_root()
    keep = [o.root[k] for k in 'pqdlst']
    if env.choice('loaded', [False, True]):
        o.state()
        c.abort()
    want = o.state(Connection(s).get_root())
    ops = list(ops) + [env.choice('op%d' % i, MORE) for i in range(more)]
    made = []
    for i, op in enumerate(ops):
        o.do(op, i)
        for x in (o.root.get('n'), getattr(keep[0], 'link', None)):
            if x is not None and x._p_oid is None:
                made.append(x)
        if op == 'commit':
            made = []
            want = o.state()
            equal(env, o.state(Connection(s).get_root()), want,
                  'after a commit')
        elif op == 'abort':
            c.abort()
            equal(env, o.state(), want, 'after the first abort')
    c.abort()
    del rec.stored[:]
    for x in [o.root] + keep:
        env.check(not x._p_is_unsaved(), 'still to be stored')
    equal(env, o.state(), want, 'after the abort')
    for k, x in zip('pqdlst', keep):
        env.check(o.root.get(k) is x, 'another object after the abort')
    c.commit()
    env.check(not rec.stored, 'a discarded change is stored')
    equal(env, o.state(Connection(s).get_root()), want,
          'seen by another connection')
    # what was created is still good for another transaction
    for x in made:
        env.check(x._p_oid is None or x._p_connection is c,
                  'half of an object')
        o.root['made'] = x
        x.v = 5
        c.commit()
        r = Connection(s).get_root()
        env.check(r['made'].v == 5 and r['made']._p_oid == x._p_oid,
                  'a new object after the abort')
        break
    env.observe('n', len(want))
    env.reach('end')


def fakes():
    from vf import net
    return net.fakes()


def others(env, kind):
    """What another client changed, with conflicts, is seen after an abort."""
    from durus.connection import Connection
    from durus.error import ConflictError
    from checks import conn
    cls = classes()
    server = conn.Server(env, kind)
    a, b = server.connection(), server.connection()
    root = a.get_root()
    for i in range(3):
        root[i] = cls['Plain']()
        root[i].v = env.int('v%d' % i, 0, 99)
    a.commit()
    now = [root[i].v for i in range(3)]
    if env.choice('forgotten', [False, True]):
        for i in range(3):
            root[i]._p_set_status_ghost()
    a.abort()
    b.abort()
    mine = [root[i] for i in range(3)]
    theirs = [b.get_root()[i] for i in range(3)]
    for i in range(3):
        how = env.choice('first%d' % i, ['nothing', 'read', 'change'])
        if how == 'read':
            mine[i].v
        elif how == 'change':
            mine[i].v = env.int('mine%d' % i, 100, 199)
    changed = False
    for i in range(3):
        if env.choice('other%d' % i, [False, True]):
            theirs[i].v = now[i] = env.int('theirs%d' % i, 200, 299)
            changed = True
    b.commit()
    try:
        then = env.choice('then', ['read', 'change', 'commit', 'nothing'])
        if then == 'read':
            for i in range(3):
                mine[i].v
        elif then == 'change':
            mine[env.choice('which', 3)].v = 1000
        elif then == 'commit':
            a.commit()
            now = [m.v for m in mine]
    except ConflictError:
        env.reach('conflict')
    a.abort()
    for i in range(3):
        env.check(env.eq(mine[i].v, now[i]), 'a value after the abort')
    mine[0].w = 5
    a.commit()
    c = server.connection()
    for i in range(3):
        env.check(env.eq(c.get_root()[i].v, now[i]), 'a discarded change')
    env.reach('end')
