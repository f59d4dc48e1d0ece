"""A valid BTree of any contents, built as far as the code looks at it.

Nodes start unloaded; loading one chooses its size and gives it fresh keys
between those of its neighbours.  What is never loaded stays a subtree of
unknown contents and known depth, which the operation has to carry along."""


class Info(object):

    def __init__(self, depth, lo, hi, root, count):
        self.depth = depth
        self.lo = lo
        self.hi = hi
        self.root = root
        self.count = count
        self.state = None


class Connection(object):
    transaction_serial = 1

    def __init__(self, env, cls, sizes=None, counted=True, roots=None):
        self.env = env
        self.roots = roots
        self.cls = cls
        self.t = cls.minimum_degree
        self.sizes = sizes or list(range(self.t - 1, 2 * self.t))
        self.counted = counted
        self.info = {}
        self.changed = []
        self.loaded = []
        self.frozen = False
        self.keep = []

    def adopt(self, obj):
        obj._p_connection = self
        obj._p_oid = len(self.keep).to_bytes(8, 'big')
        self.keep.append(obj)

    def ghost(self, depth, lo, hi, root=False):
        env = self.env
        node = self.cls.__new__(self.cls)
        self.adopt(node)
        node._p_set_status_ghost()
        least = self.t ** (depth + 1) - 1
        most = (2 * self.t) ** (depth + 1) - 1
        if root:
            least = 0 if depth == 0 else 2 * self.t ** depth - 1
        n = env.int('count', least, most)
        self.info[id(node)] = Info(depth, lo, hi, root, n)
        return node

    def load_state(self, node):
        env = self.env
        assert not self.frozen
        info = self.info[id(node)]
        if info.state is None:
            sizes = self.sizes
            if info.root:
                sizes = [0] if info.depth == 0 else []
                sizes = sizes + [1] + self.sizes
                sizes = self.roots or sorted(set(sizes))
            k = env.choice('size', sizes)
            keys = [env.int('key', -10 ** 9, 10 ** 9) for i in range(k)]
            bounds = [info.lo] + keys + [info.hi]
            env.assume(env.all(*[a < b for a, b in zip(bounds, bounds[1:])
                                 if a is not None and b is not None]))
            items = [(key, env.int('value', 0, 99)) for key in keys]
            nodes, count = None, k
            if info.depth:
                nodes = [self.ghost(info.depth - 1, a, b)
                         for a, b in zip(bounds, bounds[1:])]
                for n in nodes:
                    count = count + self.info[id(n)].count
            env.assume(info.count == count)
            info.state = dict(items=items, nodes=nodes)
            if self.counted:
                info.state['_count'] = count
            self.loaded.append(node)
        state = dict(info.state)
        state['items'] = list(state['items'])
        if state['nodes'] is not None:
            state['nodes'] = list(state['nodes'])
        node.__setstate__(state)

    def note_change(self, obj):
        assert obj._p_is_unsaved()
        self.changed.append(obj)

    def note_access(self, obj):
        obj._p_serial = self.transaction_serial

    # the tree as a sequence of items and of subtrees nobody looked into
    def before(self, node):
        info = self.info[id(node)]
        if info.state is None:
            return [node]
        if info.state['nodes'] is None:
            return list(info.state['items'])
        out = []
        for n, item in zip(info.state['nodes'], info.state['items'] + [None]):
            out += self.before(n)
            if item is not None:
                out.append(item)
        return out

    def now(self, node):
        if node._p_is_ghost():
            return [node]
        if node.nodes is None:
            return list(node.items)
        out = []
        for n, item in zip(node.nodes, list(node.items) + [None]):
            out += self.now(n)
            if item is not None:
                out.append(item)
        return out

    def same(self, a, b):
        """two sequences are equal"""
        env = self.env
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x is not y:
                    conds.append(env.eq(x[0], y[0]))
                    conds.append(env.eq(x[1], y[1]))
            elif x is not y:
                return False
        return env.all(*conds)

    def structure(self, root):
        """The rules every tree has to meet."""
        env, t = self.env, self.t

        def visit(node, depth, is_root):
            if node._p_is_ghost():
                info = self.info[id(node)]
                env.check(info.depth == depth and not info.root,
                          'leaves at different depths')
                return info.count
            k = len(node.items)
            env.check(k <= 2 * t - 1, 'a node has too many items')
            if not is_root:
                env.check(k >= t - 1, 'a node has too few items')
            if node.nodes is None:
                env.check(depth == 0, 'leaves at different depths')
                count = k
            else:
                env.check(depth > 0, 'leaves at different depths')
                env.check(k >= 1 and len(node.nodes) == k + 1,
                          'a node has as many children as it needs')
                count = k
                for n in node.nodes:
                    count = count + visit(n, depth - 1, False)
            env.check(type(node) is self.cls, 'nodes of the same class')
            if self.counted:
                env.check(node._count == count, 'a stored count is wrong')
            return count
        depth = 0
        node = root
        while True:
            if node._p_is_ghost():
                depth += self.info[id(node)].depth
                break
            if node.nodes is None:
                break
            depth += 1
            node = node.nodes[0]
        return visit(root, depth, True)

    def notes(self, tree, root_before, root, reads=False):
        """Whatever changed is marked."""
        env = self.env
        if reads:
            env.check(not self.changed, 'an operation that only reads marked '
                      'a node changed')
        env.check(tree.__dict__['root'] is root_before or
                  tree._p_is_unsaved(), 'a new root, the tree is not marked')
        env.check(tree._p_is_unsaved() == (tree in self.changed),
                  'the tree is marked without a note')

        def visit(node):
            if node._p_is_ghost():
                return
            info = self.info.get(id(node))
            if info is None:
                env.check(node._p_is_unsaved(), 'a new node is unsaved')
            elif not node._p_is_unsaved():
                s = info.state
                same = (len(s['items']) == len(node.items) and
                        all(x is y for x, y in zip(s['items'], node.items))
                        and (s['nodes'] is None) == (node.nodes is None) and
                        (node.nodes is None or (
                            len(s['nodes']) == len(node.nodes) and
                            all(x is y for x, y in zip(s['nodes'],
                                                       node.nodes)))))
                env.check(same, 'a node was changed and not marked')
                if self.counted:
                    env.check(s['_count'] == node._count,
                              'a count was changed, the node is not marked')
            else:
                env.check(len([x for x in self.changed if x is node]) == 1,
                          'a changed node is noted once')
            for n in node.nodes or []:
                visit(n)
        visit(root)


def build(env, depth, t, sizes=None, counted=True, roots=None):
    """-> (tree, connection, root)"""
    from durus import btree
    cls = dict((c.minimum_degree, c) for c in
               [btree.BNode] + btree.BNode.__subclasses__())[t]
    conn = Connection(env, cls, sizes, counted, roots)
    root = conn.ghost(depth, None, None, root=True)
    tree = btree.BTree(cls)
    tree.root = root
    conn.adopt(tree)
    tree._p_set_status_saved()
    return tree, conn, root


def position(env, seq, q):
    """-> (index of the item with key q, or None; where q belongs), for a
    sequence the operation has looked at where it matters."""
    for i, x in enumerate(seq):
        if isinstance(x, tuple):
            if x[0] == q:
                return i, i
            if x[0] > q:
                return None, i
    return None, len(seq)


def settled(env, conn, seq, q):
    """q can not be inside a subtree nobody looked into."""
    out = []
    for x in seq:
        if not isinstance(x, tuple):
            info = conn.info[id(x)]
            inside = []
            if info.lo is not None:
                inside.append(info.lo < q)
            if info.hi is not None:
                inside.append(q < info.hi)
            out.append(env.not_(env.all(*inside)) if inside else False)
    return env.all(*out)


OPS = ['set', 'del', 'get', 'contains', 'setdefault', 'pop', 'pop_d', 'note',
       'min', 'max', 'bool', 'len', 'popitem', 'get_d', 'has_key', 'add',
       'clear']
READS = ['get', 'contains', 'min', 'max', 'bool', 'len', 'get_d', 'has_key']


def step(env, tree, conn, root, op):
    """Apply one operation. -> (sequence before, expected after, result,
    expected result)"""
    q = env.int('q', -10 ** 9, 10 ** 9)
    v = env.int('v', 0, 99)
    total = conn.info[id(root)].count
    got, error = None, None
    try:
        if op == 'set':
            tree[q] = v
        elif op == 'add':
            tree.add(q)
        elif op == 'del':
            del tree[q]
        elif op == 'get':
            got = tree[q]
        elif op == 'get_d':
            got = tree.get(q, v)
        elif op == 'contains':
            got = q in tree
        elif op == 'has_key':
            got = tree.has_key(q)
        elif op == 'setdefault':
            got = tree.setdefault(q, v)
        elif op == 'pop':
            got = tree.pop(q)
        elif op == 'pop_d':
            got = tree.pop(q, v)
        elif op == 'note':
            tree.note_change_of_bnode_containing_key(q)
        elif op == 'min':
            got = tree.get_min_item()
        elif op == 'max':
            got = tree.get_max_item()
        elif op == 'bool':
            got = bool(tree)
        elif op == 'len':
            got = len(tree) if not env.symbolic else tree.__len__()
        elif op == 'popitem':
            got = tree.popitem()
        elif op == 'clear':
            tree.clear()
    except KeyError:
        error = 'KeyError'
    except AssertionError:
        if op not in ('min', 'max'):
            raise
        error = 'AssertionError'
    conn.frozen = True
    old = conn.before(root)
    at, where = None, None
    keyed = op not in ('min', 'max', 'bool', 'len', 'popitem', 'clear')
    if keyed:
        env.check(settled(env, conn, old, q),
                  '%s: the key was not looked for where it belongs' % op)
        at, where = position(env, old, q)
    new = list(old)
    want, want_error = None, None
    there = at is not None
    env.reach('present' if there else 'absent')
    if op in ('set', 'add'):
        item = (q, v if op == 'set' else True)
        if there:
            new[at] = item
        else:
            new.insert(where, item)
    elif op == 'del':
        if there:
            del new[at]
        else:
            want_error = 'KeyError'
    elif op == 'get':
        want = old[at][1] if there else None
        want_error = None if there else 'KeyError'
    elif op == 'get_d':
        want = old[at][1] if there else v
    elif op in ('contains', 'has_key'):
        want = there
    elif op == 'setdefault':
        want = old[at][1] if there else v
        if not there:
            new.insert(where, (q, v))
    elif op in ('pop', 'pop_d'):
        if there:
            want = old[at][1]
            del new[at]
        elif op == 'pop':
            want_error = 'KeyError'
        else:
            want = v
    elif op == 'note':
        want_error = None if there else 'KeyError'
    elif op in ('min', 'max'):
        if not old:
            want_error = 'AssertionError'
        else:
            want = old[0 if op == 'min' else -1]
            if not isinstance(want, tuple):
                env.fail('%s: the end of the tree was not looked at' % op)
    elif op == 'bool':
        want = bool(old)
    elif op == 'len':
        want = total
    elif op == 'popitem':
        if not old:
            want_error = 'KeyError'
        else:
            # an arbitrary item
            if error is None:
                at = [i for i, x in enumerate(old)
                      if isinstance(x, tuple) and
                      bool(env.all(env.eq(x[0], got[0]),
                                   env.eq(x[1], got[1])))]
                env.check(bool(at), 'popitem: gave no item of the tree')
                del new[at[0]]
            want = got
    elif op == 'clear':
        new = []
    env.check(error == want_error, '%s: raises where a map does not, or does '
              'not where a map does' % op)
    if error is None and want_error is None:
        if isinstance(want, tuple):
            env.check(isinstance(got, tuple) and
                      env.all(env.eq(got[0], want[0]),
                              env.eq(got[1], want[1])), '%s: result' % op)
        elif isinstance(want, bool) or want is None:
            env.check(got is want, '%s: result' % op)
        else:
            env.check(got == want, '%s: result' % op)
        if not isinstance(got, tuple):
            env.observe(op, got)
    return old, new
