"""Structure of a BTree after one operation on any valid tree."""
from checks.tree import *

EXPECT = ['end', 'absent']
BOUNDS = ('every valid tree of up to 3 levels of minimum degree 2 (thorough: '
          '4 levels, and minimum degrees 3 and 4) with arbitrary keys, one '
          'operation with an arbitrary key; from '
          'the empty tree every later one is reached by such steps; degrees '
          'above 4 run the same code with another constant')
ASSUMPTIONS = ['keys are numbers (any total order behaves alike)',
               'subtrees the operation does not load are arbitrary valid '
               'ones']
CHANGES = ['set', 'del', 'setdefault', 'pop', 'note', 'popitem', 'add',
           'clear']


def cases(tier):
    out = []

    def add(op, depth, t=2, sizes=None, roots=None):
        name = '%s-%d' % (op, depth)
        if t != 2:
            name += '-degree%d' % t
        if roots:
            name += '-root%d' % roots[0]
        out.append(dict(name=name, func='one', weight=depth + (roots or [0])[0], expect=['end'],
                        params=dict(op=op, depth=depth, t=t, sizes=sizes,
                                    roots=roots)))
    for op in CHANGES + READS:
        for depth in (0, 1):
            add(op, depth)
    for op in ('set', 'del', 'pop', 'popitem', 'get', 'min', 'max', 'len'):
        for k in (1, 2, 3):
            add(op, 2, roots=[k])
    for op in ('set', 'del'):
        sizes = [3, 7] if op == 'set' else [3, 4]
        add(op, 0, 4, [3, 4, 7])
        for k in [1] + sizes:
            add(op, 1, 4, sizes, [k])
    if tier == 'thorough':
        for op in ('add', 'setdefault', 'note', 'has_key', 'get_d',
                   'contains', 'bool', 'clear'):
            for k in (1, 2, 3):
                add(op, 2, roots=[k])
        for op in ('set', 'del', 'get', 'popitem'):
            for k in (1, 2, 3):
                add(op, 3, roots=[k])
        for op in ('set', 'del'):
            for k in (1, 3, 7):
                add(op, 2, 4, [3, 7] if op == 'set' else [3, 4], [k])
    return out


def one(env, op, depth, t, sizes, roots):
    tree, conn, root = build(env, depth, t, sizes, roots=roots)
    old, new = step(env, tree, conn, root, op)
    now = tree.__dict__['root']
    count = conn.structure(now)
    conn.notes(tree, root, now, op in READS)
    env.check(conn.same(conn.now(now), new), 'contents after %s' % op)
    env.observe('sizes', [x if not isinstance(x, tuple) else list(x)
                          for x in conn.now(now)])
    if op == 'clear':
        env.check(count == 0, 'nothing is left')
    env.reach('end')
