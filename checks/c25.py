"""PersistentList next to a list."""
import operator
from checks.coll import *

EXPECT = ['end', 'ok']
BOUNDS = ('one operation (thorough: two) on a list of 0-3 arbitrary elements '
          '(thorough 4) that is new, stored or not loaded; every method, '
          'operand kinds list, tuple, iterator, PersistentList and the list '
          'itself, of up to 2 arbitrary elements; indices from -5 to '
          '5, bounds from -3 to 3, multipliers from -1 to 3, steps -2 to 2')
ASSUMPTIONS = ['elements are arbitrary numbers, or one is None, an object '
               'equal to others or one equal to none; an ordinary list (the '
               'interpreter) is the oracle']

# name, takes, only reads
INDEX = ['getitem', 'delitem', 'pop_i']
READS = ['getitem', 'getslice', 'contains', 'len', 'iter', 'reversed',
         'count', 'index', 'index_i', 'index_ij', 'eq', 'ne', 'lt', 'le',
         'gt', 'ge', 'add', 'radd', 'mul', 'rmul', 'repr', 'bool']
WRITES = ['setitem', 'delitem', 'setslice', 'delslice', 'append', 'insert',
          'pop', 'pop_i', 'remove', 'reverse', 'sort', 'sort_r', 'sort_k',
          'extend', 'iadd', 'imul', 'clear', 'init']
NAMES = READS + WRITES
# where elements that are not numbers make a difference
ODDLY = ['getitem', 'contains', 'iter', 'count', 'index', 'index_i', 'eq',
         'ne', 'lt', 'le', 'add', 'radd', 'setitem', 'append', 'insert',
         'pop', 'pop_i', 'remove', 'extend', 'iadd', 'sort', 'init',
         'reverse', 'mul']


def cases(tier):
    n, steps = (3, 1) if tier == 'quick' else (4, 2)
    if steps == 1:
        return [dict(name=name, func='run', params=dict(names=[name], n=n))
                for name in NAMES]
    return [dict(name='%s-%s' % (a, b), func='run',
                 params=dict(names=[a, b], n=n if a in INDEX else 3))
            for a in WRITES for b in NAMES]


def operand(env, cls, p, m, make):
    """-> the operand, and what it is for the plain list"""
    kind = env.choice('kind', ['list', 'plist', 'tuple', 'iter', 'self'])
    if kind == 'self':
        return p, m
    xs = [make('o%d' % i, i, True) for i in range(env.choice('olen', 3))]
    if kind == 'plist':
        return cls(xs), list(xs)
    if kind == 'tuple':
        return tuple(xs), list(xs)
    if kind == 'iter':
        return iter(xs), list(xs)
    return list(xs), list(xs)


def bound(env, name):
    i = env.choice(name + '?', ['none', 'int'])
    return None if i == 'none' else env.concrete(env.int(name, -3, 3))


def apply(env, cls, name, p, m, make):
    """-> (operation on p, operation on m)"""
    if name in ('getitem', 'delitem', 'pop_i'):
        i = env.concrete(env.int('i', -5, 5))
        f = {'getitem': lambda x: x[i],
             'delitem': lambda x: operator.delitem(x, i),
             'pop_i': lambda x: x.pop(i)}[name]
        return (lambda: f(p)), (lambda: f(m))
    if name in ('getslice', 'delslice', 'setslice'):
        step = env.choice('step', [None, 1, 2, -1, -2])
        s = slice(bound(env, 'lo'), bound(env, 'hi'), step)
        if name == 'getslice':
            return (lambda: p[s]), (lambda: m[s])
        if name == 'delslice':
            return (lambda: operator.delitem(p, s)), (
                lambda: operator.delitem(m, s))
        xs = [make('o%d' % i, i, True) for i in range(env.choice('olen', 3))]
        ys = cls(xs) if env.choice('kind', [False, True]) else xs
        return (lambda: operator.setitem(p, s, ys)), (
            lambda: operator.setitem(m, s, xs))
    if name in ('setitem', 'insert'):
        i = env.concrete(env.int('i', -5, 5))
        x = make('x', 0, True)
        if name == 'insert':
            return (lambda: p.insert(i, x)), (lambda: m.insert(i, x))
        return (lambda: operator.setitem(p, i, x)), (
            lambda: operator.setitem(m, i, x))
    if name in ('contains', 'count', 'index', 'remove', 'append'):
        x = make('x', 0, True)
        f = {'contains': lambda l: x in l, 'count': lambda l: l.count(x),
             'index': lambda l: l.index(x), 'remove': lambda l: l.remove(x),
             'append': lambda l: l.append(x)}[name]
        return (lambda: f(p)), (lambda: f(m))
    if name in ('index_i', 'index_ij'):
        x = make('x', 0, True)
        args = [env.concrete(env.int('i', -3, 3))]
        if name == 'index_ij':
            args.append(env.concrete(env.int('j', -3, 3)))
        return (lambda: p.index(x, *args)), (lambda: m.index(x, *args))
    if name in ('mul', 'rmul', 'imul'):
        k = env.concrete(env.int('k', -1, 3))
        if name == 'mul':
            return (lambda: p * k), (lambda: m * k)
        if name == 'rmul':
            return (lambda: k * p), (lambda: k * m)
        return (lambda: operator.imul(p, k)), (lambda: operator.imul(m, k))
    if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        f = getattr(operator, name)
        kind = env.choice('kind', ['list', 'plist', 'self'])
        if kind == 'self':
            return (lambda: f(p, p)), (lambda: f(m, m))
        o = [make('o%d' % i, i, True) for i in range(env.choice('olen', 4))]
        q = cls(o) if kind == 'plist' else o
        return (lambda: bool(f(p, q))), (lambda: bool(f(m, o)))
    if name in ('add', 'radd', 'iadd', 'extend'):
        q, o = operand(env, cls, p, m, make)
        o = list(o)
        if name == 'add':
            return (lambda: p + q), (lambda: m + o)
        if name == 'radd':
            if isinstance(q, cls):
                return (lambda: cls.__radd__(p, q)), (lambda: o + m)
            return (lambda: q + p), (lambda: o + m)
        if name == 'iadd':
            return (lambda: operator.iadd(p, q)), (
                lambda: operator.iadd(m, o))
        return (lambda: p.extend(q)), (lambda: m.extend(o))
    f = {
        'len': len, 'iter': lambda l: [x for x in l],
        'reversed': lambda l: list(reversed(l)),
        'bool': lambda l: bool(len(l)),
        'repr': lambda l: repr(l) and None,
        'pop': lambda l: l.pop(), 'reverse': lambda l: l.reverse(),
        'sort': lambda l: l.sort(), 'sort_r': lambda l: l.sort(reverse=True),
        'sort_k': lambda l: l.sort(key=lambda x: -x),
        'clear': lambda l: l.clear(), 'init': lambda l: type(l)(l),
    }[name]
    return (lambda: f(p)), (lambda: f(m))


def run(env, names, n):
    from durus.persistent_list import PersistentList as cls
    make = odd(env, [x for x in ODD if names[0] in ODDLY or x == ODD[0]])
    if make.plain:
        xs = [make('e%d' % i, i) for i in range(env.choice('len', n + 1))]
    else:
        xs = [make('e%d' % i, env.choice('odd%d' % i, [1, 0]) if i else 0)
              for i in range(1 + env.choice('len', 2))]
        xs.reverse()
    p, m = cls(xs), list(xs)
    conn = Connection(p, lambda: dict(data=list(xs)),
                      env.choice('status', STATUSES))

    def same(a, b):
        return exact(env, a, b)
    reads = True
    for name in names:
        before = list(m)
        reads = reads and (name in READS or name == 'init')
        f, g = apply(env, cls, name, p, m, make)
        how, got = outcome(f)
        how2, want = outcome(g)
        env.check(how == how2, '%s: error where a list gives none, or none '
                  'where it does' % name)
        if how == how2 == 'ok':
            env.reach('ok')
            if name in ('iadd', 'imul'):
                env.check(got is p, '%s: not in place' % name)
            else:
                plain = got.data if isinstance(got, cls) else got
                env.check(exact(env, plain, want), '%s: result' % name)
                if make.plain:
                    env.observe(name, plain)
                if isinstance(got, cls):
                    # a result of its own: changing it changes nothing here
                    env.check(got is not p, '%s: same object' % name)
                    got.append(7)
        elif how2 == 'error':
            env.check(got == want, '%s: other error' % name)
            env.reach('error')
    tracked(env, conn, p, xs, m, reads, same,
            names[-1] not in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'repr'))
    env.check(exact(env, list(p), m), 'contents after %s' % names[-1])
    env.check(exact(env, p.__getstate__()['data'], m), 'state that is stored')
    if make.plain:
        env.observe('after', list(p))
    env.reach('end')
