"""IntSet next to a set."""
from vf.env import WORLD

EXPECT = ['end']
SIMFS = False
BOUNDS = ('3 operations, at most 2 of them add (thorough: all of 3, and 4 operations with two adds) on arbitrary numbers up to 3000, initial '
          'size 0-2000 and the default; then one look at any number')
ASSUMPTIONS = ['numbers are non-negative, as documented; the file is a '
               'BytesIO (symbolic side: vf.models.FlatIO)']


def cases(tier):
    import itertools
    n = 3
    more = [] if tier == 'quick' else [
        ops for ops in itertools.product('ad', repeat=4)
        if ops.count('a') == 2]
    most = 2 if tier == 'quick' else 3
    return [dict(name=''.join(ops) + ('-default' if default else ''),
                 func='ints', params=dict(ops=ops, default=default))
            for ops in [x for x in itertools.product('ad', repeat=n)
                        if x.count('a') <= most] + more
            for default in (False, True)]


def ints(env, ops, default):
    from durus.utils import IntSet
    WORLD.flatio = True
    if default:
        s = IntSet()
    else:
        s = IntSet(env.int('size', 0, 2000), env.BytesIO())
    done = []
    for op in ops:
        n = env.int('n', 0, 3000)
        if op == 'a':
            s.add(n)
        else:
            s.discard(n)
        done.append((n, op == 'a'))
    q = env.int('q', 0, 5000)
    want = False
    for n, there in done:
        want = env.ite(n == q, there, want) if not isinstance(
            n == q, bool) else (there if n == q else want)
    got = q in s
    env.check(env.eq(got, want), 'membership')
    env.observe('got', got)
    env.reach('end')
