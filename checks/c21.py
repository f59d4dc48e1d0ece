"""A BTree next to a sorted map."""
from checks import tree as T

EXPECT = ['end']
BOUNDS = ('every sequence of 5 operations (thorough 6) from an empty tree of '
          'minimum degree 2; one operation on every valid tree of 2 levels '
          '(thorough 3), also of one stored without counts; complete '
          'iteration, update, copying to another degree and pickled state on '
          'every tree of 2 levels with 1 or 2 items at the root; arbitrary '
          'keys and values')
ASSUMPTIONS = ['keys are numbers (any total order behaves alike)']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    ops = ['set', 'del', 'setdefault', 'pop_d']
    for a in ops if deep else ['set']:
        for b in ops:
            out.append(dict(name='sequence-%s-%s' % (a, b), func='sequence',
                            weight=3,
                            params=dict(first=[a, b], n=6 if deep else 5)))
    for op in T.OPS:
        for depth in (0, 1):
            out.append(dict(name='step-%s-%d' % (op, depth), func='step',
                            params=dict(op=op, depth=depth, counted=True)))
        out.append(dict(name='step-%s-1-nocount' % op, func='step',
                        params=dict(op=op, depth=1, counted=False)))
    for op in ('set', 'del', 'get', 'contains', 'pop', 'popitem'):
        for root in ([1], [2], [3]) if deep else ([1],):
            out.append(dict(name='step-%s-2-root%d' % (op, root[0]),
                            func='step', weight=4,
                            params=dict(op=op, depth=2, counted=True,
                                        roots=root)))
    for what in WHOLE:
        for depth, roots in (0, None), (1, [1]), (1, [2]):
            out.append(dict(name='%s-%d-%s' % (what, depth, roots and
                                                roots[0]), func='whole',
                            weight=depth + (what == 'update'),
                            params=dict(what=what, depth=depth,
                                        roots=roots)))
    return out


WHOLE = ['iterate', 'reversed', 'update', 'degree', 'nocount']


def step(env, op, depth, counted, roots=None):
    tree, conn, root = T.build(env, depth, 2, counted=counted, roots=roots)
    if op == 'len' and not counted:
        return length(env, tree, conn, root)
    old, new = T.step(env, tree, conn, root, op)
    env.check(conn.same(conn.now(tree.__dict__['root']), new),
              'contents after %s' % op)
    env.reach('end')


def length(env, tree, conn, root):
    n = tree.__len__()
    env.check(n == len(conn.now(root)), 'length')
    env.observe('len', n)
    env.reach('end')


def sequence(env, first, n):
    from durus.btree import BTree, BNode
    tree = BTree(BNode)
    model = []              # sorted [(key, value)]

    def find(q):
        for i, (k, v) in enumerate(model):
            if k == q:
                return i, i
            if k > q:
                return None, i
        return None, len(model)
    for i in range(n):
        if i < len(first):
            op = first[i]
        else:
            op = env.choice('op%d' % i, ['set', 'del'])
        q = env.int('q%d' % i, -10 ** 6, 10 ** 6)
        v = env.int('v%d' % i, 0, 9)
        error = False
        got = None
        try:
            if op == 'set':
                tree[q] = v
            elif op == 'del':
                del tree[q]
            elif op == 'setdefault':
                got = tree.setdefault(q, v)
            else:
                got = tree.pop(q, v)
        except KeyError:
            error = True
        at, where = find(q)
        want, want_error = None, False
        if op == 'set' or op == 'setdefault' and at is None:
            if at is None:
                model.insert(where, (q, v))
            else:
                model[at] = (q, v)
            want = v if op == 'setdefault' else None
        elif op == 'setdefault':
            want = model[at][1]
        elif op == 'del':
            want_error = at is None
            if at is not None:
                del model[at]
        else:
            want = v if at is None else model[at][1]
            if at is not None:
                del model[at]
        env.check(error == want_error, '%s: raises where a map does not, or '
                  'does not where a map does' % op)
        env.check(env.eq(got, want), '%s: result' % op)
    agrees(env, tree, model)
    env.reach('end')


def pairs_equal(env, a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return env.all(*[env.all(env.eq(x[0], y[0]), env.eq(x[1], y[1]))
                     for x, y in zip(a, b)])


def agrees(env, tree, model):
    env.check(pairs_equal(env, tree.items(), model), 'items')
    env.check(env.eq(tree.keys(), [k for k, v in model]), 'keys')
    env.check(env.eq(tree.values(), [v for k, v in model]), 'values')
    env.check(env.eq([k for k in tree], [k for k, v in model]), 'iteration')
    env.check(env.eq(list(tree.itervalues()), [v for k, v in model]),
              'itervalues')
    env.check(env.eq(list(tree.iterkeys()), [k for k, v in model]),
              'iterkeys')
    env.check(env.eq([k for k in reversed(tree)],
                     [k for k, v in reversed(model)]), 'reversed')
    env.check(pairs_equal(env, tree.items_backward(), reversed(model)),
              'items backward')
    env.check(tree.__len__() == len(model), 'length')
    env.check(bool(tree) == bool(model), 'truth')
    for f, i in ((tree.get_min_item, 0), (tree.get_max_item, -1)):
        try:
            got = f()
        except AssertionError:
            env.check(not model, 'an item at the ends')
        else:
            env.check(bool(model) and pairs_equal(env, [got], [model[i]]),
                      'the item at the ends')
    env.observe('items', [list(x) for x in tree.items()])


def whole(env, what, depth, roots):
    tree, conn, root = T.build(env, depth, 2, roots=roots,
                               counted=what != 'nocount')
    model = list(root)              # loads every node
    expect = conn.before(root)
    env.check(conn.same(model, expect), 'iterating over the nodes')
    if what in ('iterate', 'nocount'):
        agrees(env, tree, expect)
        env.check(not conn.changed, 'reading marked a node changed')
    elif what == 'reversed':
        env.check(pairs_equal(env, list(reversed(root)), reversed(expect)),
                  'reversed')
    elif what == 'update':
        form = env.choice('form', ['dict', 'pairs', 'btree', 'kw'])
        new = [(env.int('k%d' % i, -10 ** 9, 10 ** 9),
                env.int('v%d' % i, 0, 9))
               for i in range(1 if depth else 2)]
        if form == 'kw':
            # keyword arguments are names: on an empty tree only
            t2 = type(tree)(type(root))
            t2.update([('y', new[0][0])], a=1, z=2)
            env.check(pairs_equal(env, t2.items(), [
                ('a', 1), ('y', new[0][0]), ('z', 2)]), 'update')
            env.reach('end')
            return
        if form == 'dict':
            tree.update(env.dict(new))
        elif form == 'pairs':
            tree.update(iter(new))
        else:
            other = type(tree)(type(root))
            for k, v in new:
                other[k] = v
            tree.update(other)
        want = list(expect)
        if form == 'btree':
            pass
        for k, v in new:
            at, where = T.position(env, want, k)
            if at is None:
                want.insert(where, (k, v))
            else:
                want[at] = (k, v)
        env.check(pairs_equal(env, tree.items(), want), 'update')
        env.check(tree.__len__() == len(want), 'length after update')
    elif what == 'degree':
        d = env.choice('degree', [2, 4, 8, 3])
        changed = tree.set_bnode_minimum_degree(d)
        env.check(changed == (d in (4, 8)), 'the degree was changed')
        env.check(tree.root.minimum_degree == (d if changed else 2),
                  'the degree')
        env.check(conn.same(list(tree.root), expect),
                  'contents after changing the degree')
        env.check(tree.__len__() == len(expect), 'length')
        if changed:
            env.check(tree._p_is_unsaved(), 'the tree is marked')
    env.reach('end')
