"""PersistentSet next to a set."""
import operator
from checks.coll import *

EXPECT = ['end', 'ok']
BOUNDS = ('one operation (thorough: two) on a set of 0-3 arbitrary elements '
          'that is new, stored or not loaded; every method, operand kinds '
          'set, PersistentSet, list, iterator and the set itself, of up to 2 '
          'arbitrary elements')
ASSUMPTIONS = ['elements are arbitrary numbers, and one is None, an object '
               'equal to others or one equal to none; the oracle is an ordinary '
               'set (symbolic side: vf.sym.SymSet, traces replayed with set)',
               'comparison of a PersistentSet with a plain set is refused by '
               'design and left out']

BINARY = ['and', 'or', 'xor', 'sub']
INPLACE = ['iand', 'ior', 'ixor', 'isub']
COMPARE = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
METHODS = ['difference', 'intersection', 'symmetric_difference', 'union',
           'issubset', 'issuperset', 'isdisjoint']
UPDATES = ['difference_update', 'intersection_update',
           'symmetric_difference_update', 'update']
MANY = ['intersection2', 'union2', 'intersection_update2', 'update2',
        'intersection0', 'union0']
READS = ['contains', 'len', 'iter', 'copy', 'repr', 'init', 'rand', 'ror',
         'rxor', 'rsub', 'intersection2', 'union2', 'intersection0',
         'union0'] + BINARY + COMPARE + METHODS
WRITES = ['add', 'clear', 'discard', 'pop', 'remove', 'intersection_update2',
          'update2'] + INPLACE + UPDATES
NAMES = READS + WRITES


def cases(tier):
    if tier == 'quick':
        return [dict(name=name, func='run', params=dict(
            names=[name], n=2 if name in MANY else 3))
                for name in NAMES]
    return [dict(name='%s-%s' % (a, b), func='run',
                 params=dict(names=[a, b], n=3))
            for a in WRITES for b in NAMES]


def in_order(s):
    return sorted([y for y in s if y is not None and
                   not isinstance(y, (Twin, Never))]) + [
        y for y in s if y is None or isinstance(y, (Twin, Never))]


def operand(env, cls, p, m, kinds, make):
    kind = env.choice('kind', kinds)
    if kind == 'self':
        return p, m
    xs = [make('o%d' % i, i, True) for i in range(env.choice('olen', 3))]
    if kind == 'pset':
        return cls(xs), env.set(xs)
    if kind == 'set':
        return env.set(xs), env.set(xs)
    if kind == 'iter':
        return iter(xs), env.set(xs)
    return list(xs), env.set(xs)


def apply(env, cls, name, p, m, make):
    x = make('x', 0, True)
    if name in ('rand', 'ror', 'rxor', 'rsub'):
        q, o = operand(env, cls, p, m, ['set'], make)
        f = getattr(operator, name[1:] + ('_' if name in ('rand', 'ror')
                                          else ''))
        return (lambda: f(q, p)), (lambda: f(o, m))
    if name in BINARY + INPLACE:
        q, o = operand(env, cls, p, m, ['set', 'pset', 'self'], make)
        f = getattr(operator, name + ('_' if name in ('and', 'or') else ''))
        return (lambda: f(p, q)), (lambda: f(m, o))
    if name in COMPARE:
        q, o = operand(env, cls, p, m, ['pset', 'self'], make)
        f = getattr(operator, name)
        return (lambda: bool(f(p, q))), (lambda: bool(f(m, o)))
    if name in METHODS + UPDATES:
        kinds = ['set', 'pset', 'self', 'list', 'iter']
        if name == 'isdisjoint':
            kinds = ['pset', 'self', 'list']
        q, o = operand(env, cls, p, m, kinds, make)
        return (lambda: getattr(p, name)(q)), (lambda: getattr(m, name)(o))
    if name in MANY:
        qs = [operand(env, cls, p, m, ['pset', 'list'], make)
              for i in range(int(name[-1]))]
        return (lambda: getattr(p, name[:-1])(*[q for q, o in qs])), (
            lambda: getattr(m, name[:-1])(*[o for q, o in qs]))
    if name == 'init':
        q, o = operand(env, cls, p, m, ['set', 'pset', 'self', 'list',
                                        'iter'], make)
        return (lambda: cls(q)), (lambda: env.set(o))
    if name == 'pop':
        # any element may be given
        def f():
            y = p.pop()
            env.check(y in m, 'pop: gave something else')
            m.remove(y)
            env.check(y not in p, 'pop: still there')

        def g():
            if first_empty:
                raise KeyError
        first_empty = not len(m)
        return f, g
    f = {
        'contains': lambda s: x in s, 'len': len,
        'iter': lambda s: in_order(s), 'copy': lambda s: s.copy(),
        'repr': lambda s: repr(s) and None, 'add': lambda s: s.add(x),
        'clear': lambda s: s.clear(), 'discard': lambda s: s.discard(x),
        'remove': lambda s: s.remove(x),
    }[name]
    return (lambda: f(p)), (lambda: f(m))


def run(env, names, n):
    from durus.persistent_set import PersistentSet as cls
    make = odd(env)
    xs = [make('e%d' % i, i) for i in range(
        env.choice('len', n + 1) if make.plain else
        1 + env.choice('len', 2))]
    p, m = cls(xs), env.set(xs)
    conn = Connection(p, lambda: dict(s=env.set(xs)),
                      env.choice('status', STATUSES))
    first = env.set(xs)

    def same(a, b):
        return exact_set(env, a, b)
    reads = True
    for name in names:
        reads = reads and name in READS
        f, g = apply(env, cls, name, p, m, make)
        how, got = outcome(f)
        how2, want = outcome(g)
        env.check(how == how2, '%s: error where a set gives none, or none '
                  'where it does' % name)
        if how == how2 == 'ok':
            env.reach('ok')
            if name in INPLACE:
                env.check(got is p, '%s: not in place' % name)
            elif isinstance(got, cls):
                env.check(same(got.s, want), '%s: result' % name)
                if make.plain:
                    env.observe(name, got.s)
                # a result of its own: changing it changes nothing here
                env.check(got is not p, '%s: same object' % name)
                got.add(77)
            else:
                env.check(exact(env, got, want), '%s: result' % name)
                if make.plain:
                    env.observe(name, got)
        elif how2 == 'error':
            env.check(got == want, '%s: other error' % name)
            env.reach('error')
    tracked(env, conn, p, first, m, reads, same,
            names[-1] not in COMPARE + ['repr', 'init'])
    env.check(same(p.s, m), 'contents after %s' % names[-1])
    env.check(len(p) == len(m), 'length after %s' % names[-1])
    env.check(same(p.__getstate__()['s'], m), 'state that is stored')
    if make.plain:
        env.observe('after', p.s)
    env.reach('end')
