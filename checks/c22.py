"""Ranges of a BTree."""
from checks import tree as T

EXPECT = ['end', 'some', 'none']
BOUNDS = ('every tree of minimum degree 2 of 1 level, and of 2 levels with '
          '1 or 2 items at the root (thorough 3), and of 3 levels '
          'with up to 3 items at the root and of 4 with one, other nodes '
          'smallest (thorough: 3 levels, nodes of 1 or 2 items); arbitrary keys; arbitrary bounds, in either order, every '
          'choice of open and closed ends')
ASSUMPTIONS = ['keys are numbers (any total order behaves alike)']
KINDS = ['from', 'backward', 'range', 'range_back']


def cases(tier):
    shapes = [(0, None, None), (1, [1], None), (1, [2], None),
              (2, [1], [1]), (2, [2], [1]), (2, [3], [1]), (3, [1], [1])]
    if tier == 'thorough':
        shapes += [(1, [3], None), (2, [1], [1, 2]), (2, [2], [1, 2]),
                   (3, [2], [1])]
    out = []
    for kind in KINDS:
        for depth, roots, sizes in shapes:
            for closed in (None, True, False):
                out.append(dict(
                    name='%s-%s-%d-%s%s' % (
                        kind, {None: 'default', True: 'closed',
                               False: 'open'}[closed], depth,
                        roots[0] if roots else 'x', '-small%d' % max(sizes) if sizes else ''),
                    func='ranges', weight=depth * (2 if 'range' in kind
                                                   else 1),
                    expect=['end', 'some'] + (
                        ['none'] if depth == 0 else []),
                    params=dict(kind=kind, depth=depth, roots=roots,
                                sizes=sizes, closed=closed)))
    return out


def ranges(env, kind, depth, roots, sizes, closed):
    tree, conn, root = T.build(env, depth, 2, roots=roots, sizes=sizes)
    q = env.int('start', -10 ** 9, 10 ** 9)
    kw = {}
    if kind == 'from':
        if closed is not None:
            kw['closed'] = closed
        got = list(tree.items_from(q, **kw))
        keep = lambda k: k >= q if closed in (None, True) else k > q
        order = 1
    elif kind == 'backward':
        if closed is not None:
            kw['closed'] = closed
        got = list(tree.items_backward_from(q, **kw))
        keep = lambda k: k < q if closed in (None, False) else k <= q
        order = -1
    else:
        r = env.int('end', -10 ** 9, 10 ** 9)
        if kind == 'range':
            env.assume(q <= r)
            order = 1
        else:
            env.assume(r < q)
            order = -1
        cs, ce = True, False
        if closed is not None:
            cs = closed
            ce = env.choice('closed_end', [True, False])
            kw = dict(closed_start=cs, closed_end=ce)
        got = list(tree.items_range(q, r, **kw))

        def keep(k):
            a, b = (q, r) if order == 1 else (r, q)
            ca, cb = (cs, ce) if order == 1 else (ce, cs)
            return env.all(a <= k if ca else a < k, k <= b if cb else k < b)
    # what was not looked at has to lie outside
    old = conn.before(root)
    sure = []
    for x in old:
        if not isinstance(x, tuple):
            lo, hi = conn.info[id(x)].lo, conn.info[id(x)].hi
            # an item there would have to be outside: the subtree's keys are
            # any numbers strictly between lo and hi
            probe = env.int('probe', -10 ** 9 - 1, 10 ** 9 + 1)
            conds = []
            if lo is not None:
                conds.append(lo < probe)
            if hi is not None:
                conds.append(probe < hi)
            inside = env.all(*conds) if conds else True
            sure.append(env.implies(inside, env.not_(keep(probe))))
    env.check(env.all(*sure), 'a part of the range was not looked at')
    want = [x for x in old if isinstance(x, tuple) and bool(keep(x[0]))]
    if order < 0:
        want.reverse()
    env.check(len(got) == len(want), 'number of items in the range')
    env.check(env.all(*[env.all(env.eq(a[0], b[0]), env.eq(a[1], b[1]))
                        for a, b in zip(got, want)]), 'items in the range')
    env.check(not conn.changed, 'iterating marked a node changed')
    env.observe('got', [list(x) for x in got])
    env.reach('some' if want else 'none')
    env.reach('end')
