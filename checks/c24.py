"""PersistentDict next to a dict."""
import operator
from checks.coll import *

EXPECT = ['end', 'ok']
BOUNDS = ('one operation (thorough: two) on a dictionary of 0-3 arbitrary '
          'items that is new, stored or not loaded; every method, operand '
          'kinds dict, PersistentDict, other mapping, pairs and the '
          'dictionary itself, of up to 2 arbitrary items, keyword arguments')
ASSUMPTIONS = ['keys and values are arbitrary numbers, and one of them None, '
               'an object equal to others or one equal to none, keyword arguments two '
               'fixed names; the oracle is an ordinary dictionary (symbolic '
               'side: vf.sym.SymDict, traces replayed with dict)']

READS = ['getitem', 'get', 'get_d', 'contains', 'has_key', 'len', 'iter',
         'keys', 'values', 'items', 'iteritems', 'iterkeys', 'itervalues',
         'eq', 'ne', 'eq_other', 'copy', 'repr', 'init', 'fromkeys',
         'missing', 'setdefault_present', 'subclass_copy']
WRITES = ['setitem', 'delitem', 'clear', 'update', 'update_kw', 'update2',
          'setdefault', 'setdefault_d', 'pop', 'pop_d', 'popitem']
NAMES = READS + WRITES


def cases(tier):
    if tier == 'quick':
        return [dict(name=name, func='run', params=dict(names=[name], n=3),
                     expect=['end', 'error' if name == 'update2' else 'ok'])
                for name in NAMES]
    return [dict(name='%s-%s' % (a, b), func='run',
                 params=dict(names=[a, b], n=3), expect=['end'])
            for a in WRITES for b in NAMES]


class Mapping(object):
    """Has keys, and is no dict."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def items(env, name, n, make=None):
    out = []
    for i in range(n):
        k = env.int('%sk%d' % (name, i), 0, 9)
        v = env.int('%sv%d' % (name, i), 0, 9)
        if make and not i:
            # the odd object is the key or the value
            x = make('%so' % name, i)
            if not make.plain:
                if make.where == 'key':
                    k = x
                else:
                    v = x
        out.append((k, v))
    return out


def operand(env, cls, p, m):
    kind = env.choice('kind', ['dict', 'pdict', 'mapping', 'pairs', 'self',
                               'iter'])
    if kind == 'self':
        return p, m
    xs = items(env, 'o', env.choice('olen', 3))
    d = env.dict(xs)
    if kind == 'dict':
        return d, d
    if kind == 'pdict':
        return cls(xs), d
    if kind == 'mapping':
        return Mapping(d), d
    return (list(xs) if kind == 'pairs' else iter(xs)), d


def apply(env, cls, name, p, m, make):
    k = env.int('k', 0, 9)
    d = env.int('d', 0, 9)
    if not make.plain:
        x = make('x', 0, True)
        if make.where == 'key':
            k = x
        else:
            d = x
    if name == 'missing':
        class Sub(cls):
            def __missing__(self, key):
                return ('none', key)
        q = Sub(m)

        def plain():
            if k in m:
                return m[k]
            return ('none', k)
        return (lambda: q[k]), plain
    if name in ('eq', 'ne', 'eq_other'):
        f = operator.ne if name == 'ne' else operator.eq
        if env.choice('self', [False, True]):
            return (lambda: bool(f(p, p))), (lambda: bool(f(m, m)))
        xs = items(env, 'o', env.choice('olen', 3))
        if name == 'eq_other':
            return (lambda: p == xs), (lambda: False)
        return (lambda: bool(f(p, cls(xs)))), (
            lambda: bool(f(m, env.dict(xs))))
    if name == 'update':
        q, o = operand(env, cls, p, m)
        return (lambda: p.update(q)), (lambda: m.update(o))
    if name == 'update_kw':
        q, o = operand(env, cls, p, m)
        return (lambda: p.update(q, x=d, y=1)), (
            lambda: m.update(o, x=d, y=1))
    if name == 'update2':
        return (lambda: p.update({}, {})), (lambda: m.update({}, {}))
    if name == 'init':
        q, o = operand(env, cls, p, m)
        return (lambda: cls(q)), (lambda: env.dict(o))
    if name == 'fromkeys':
        ks = [env.int('o%d' % i, 0, 9) for i in range(env.choice('olen', 3))]
        return (lambda: cls.fromkeys(ks, d)), (
            lambda: env.dict([(x, d) for x in ks]))
    if name == 'copy':
        return (lambda: p.copy()), (lambda: m.copy())
    if name == 'subclass_copy':
        class Named(cls):
            __slots__ = ['name']
        q = Named(m)
        q.name = d

        def f():
            c = q.copy()
            c[k] = d
            env.check(type(c) is Named and exact(env, c.name, d),
                      'copy: attributes')
            env.check(c._p_connection is None and c._p_oid is None and
                      c._p_is_unsaved(), 'copy: a new object')
            return q

        return f, (lambda: m)
    f = {
        'getitem': lambda x: x[k], 'get': lambda x: x.get(k),
        'get_d': lambda x: x.get(k, d), 'contains': lambda x: k in x,
        'has_key': lambda x: x.has_key(k) if x is p else k in x,
        'len': len, 'iter': lambda x: [y for y in x],
        'keys': lambda x: list(x.keys()),
        'values': lambda x: list(x.values()),
        'items': lambda x: [list(y) for y in x.items()],
        'iteritems': lambda x: [list(y) for y in (
            x.iteritems() if x is p else x.items())],
        'iterkeys': lambda x: list(x.iterkeys() if x is p else x.keys()),
        'itervalues': lambda x: list(x.itervalues() if x is p
                                     else x.values()),
        'repr': lambda x: repr(x) and None,
        'setitem': lambda x: operator.setitem(x, k, d),
        'delitem': lambda x: operator.delitem(x, k),
        'clear': lambda x: x.clear(),
        'setdefault': lambda x: x.setdefault(k),
        'setdefault_d': lambda x: x.setdefault(k, d),
        'pop': lambda x: x.pop(k), 'pop_d': lambda x: x.pop(k, d),
        'popitem': lambda x: list(x.popitem()),
    }
    f['setdefault_present'] = lambda x: x.setdefault(k, d) \
        if k in x else x.get(k)
    f = f[name]
    return (lambda: f(p)), (lambda: f(m))


def run(env, names, n):
    from durus.persistent_dict import PersistentDict as cls
    make = odd(env)
    make.where = 'value' if make.plain else env.choice('odd', ['key',
                                                              'value'])
    xs = items(env, 'e', env.choice('len', n + 1) if make.plain else
               1 + env.choice('len', 2), make)
    p, m = cls(xs), env.dict(xs)
    conn = Connection(p, lambda: dict(data=env.dict(xs)),
                      env.choice('status', STATUSES))
    first = env.dict(xs)

    def same(a, b):
        return bool(exact_dict(env, a, b))
    reads = True
    for name in names:
        reads = reads and name in READS
        f, g = apply(env, cls, name, p, m, make)
        how, got = outcome(f)
        how2, want = outcome(g)
        env.check(how == how2, '%s: error where a dict gives none, or none '
                  'where it does' % name)
        if how == how2 == 'ok':
            env.reach('ok')
            plain = got.data if isinstance(got, cls) else got
            if isinstance(got, cls):
                env.check(same(plain, want), '%s: result' % name)
            else:
                env.check(exact(env, plain, want), '%s: result' % name)
            if make.plain:
                env.observe(name, plain)
            if isinstance(got, cls):
                # a result of its own: changing it changes nothing here
                env.check(got is not p, '%s: same object' % name)
                got[77] = 7
        elif how2 == 'error':
            env.check(got == want, '%s: other error' % name)
            env.reach('error')
    tracked(env, conn, p, first, m, reads, same,
            names[-1] not in ('eq', 'ne', 'eq_other', 'fromkeys', 'missing',
                              'subclass_copy', 'repr', 'init'))
    env.check(same(p.data, m), 'contents after %s' % names[-1])
    env.check([k for k in p] == [k for k in m],
              'order after %s' % names[-1])
    env.check(same(p.__getstate__()['data'], m), 'state that is stored')
    if make.plain:
        env.observe('after', p.data)
    env.reach('end')
