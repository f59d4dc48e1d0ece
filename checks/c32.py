"""Files against an independent reader and writer of the documented layout."""
import pickle
import zlib
from checks.graph import *
from vf.simfs import Inode

EXPECT = ['end']
BOUNDS = ('read: FileStorage and FileStorage2 files after up to 3 commits '
          '(thorough 4), with or without a pack between them, of objects '
          'with arbitrary data and references; written: a file with 0-2 '
          'objects in the first section (FileStorage2: before the index) and '
          'up to 2 later transactions of arbitrary records, every width of '
          'the offset map from 2 to 8 bytes; objects: 3 objects of '
          'arbitrary values, compressed or not')
ASSUMPTIONS = ['pickle and zlib are those of the interpreter (symbolic '
               'numbers pass through them as tokens)',
               'FileStorage writes the oid of an object twice (as the name '
               'in the Shelf and inside the record); the text in shelf.py '
               'mentions it once, the files are what is compared']


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('fs', 'fs2'):
        for hist in (['c', 'c', 'c'], ['c', 'p', 'c'], ['c', 'c', 'p', 'c']) \
                + ((['c', 'p', 'c', 'p'], ['c', 'p', 'c', 'c', 'p', 'c'])
                   if deep else ()):
            out.append(dict(name='%s-read-%s' % (kind, ''.join(hist)),
                            func='read', params=dict(kind=kind, hist=hist)))
        for base in range(3):
            for later in range(3):
                out.append(dict(
                    name='%s-written-%d-%d' % (kind, base, later),
                    func='written', weight=2,
                    params=dict(kind=kind, base=base, later=later)))
        out.append(dict(name=kind + '-slowpack', func='slowpack', weight=3,
                        params=dict(kind=kind)))
        out.append(dict(name=kind + '-objects', func='objects_read',
                        params=dict(kind=kind)))
        out.append(dict(name=kind + '-objects-written',
                        func='objects_written', params=dict(kind=kind)))
    return out


class Reader(object):
    """Reads what the documentation describes, and nothing else."""

    def __init__(self, env, data):
        self.env = env
        self.data = data
        self.pos = 0
        self.n = env.blen(data)

    def take(self, n):
        env = self.env
        env.check(self.pos + n <= self.n, 'format: the file ends early')
        b = env.cut(self.data, self.pos, self.pos + n)
        self.pos = self.pos + n
        return b

    def number(self, n=8):
        return self.env.unpack(self.take(n))

    def end(self):
        return bool(self.pos == self.n)


def read_record(env, rec):
    """-> oid"""
    r = Reader(env, rec)
    oid = r.take(8)
    r.take(r.number(4))
    refs = r.n - r.pos
    env.check(refs % 8 == 0, 'format: the references of a record')
    return oid


def read_fs(env, data):
    """-> [(oid, record)], in order"""
    r = Reader(env, data)
    out = []
    env.check(env.eq(r.take(8), b'SHELF-1\n'), 'format: prefix')

    def transaction():
        n = r.number()
        end = r.pos + n
        got = []
        while not bool(r.pos == end):
            at = r.pos
            size = r.number()
            name = r.take(8)
            rec = r.take(size - 8)
            oid = read_record(env, rec)
            env.check(env.eq(name, oid), 'format: the name of a record')
            got.append((oid, rec, at))
            env.check(r.pos <= end, 'format: a record beyond its transaction')
        return got
    first = transaction()
    start = r.pos
    size = r.number()
    after = r.pos + size
    width = r.number()
    count = r.number()
    env.check(size == 16 + width * count, 'format: size of the offset map')
    width, count = env.concrete(width), env.concrete(count)
    entries = [r.number(width) for i in range(count)]
    env.check(r.pos == after, 'format: end of the offset map')
    used = {}
    for oid, rec, at in first:
        i = env.concrete(env.unpack(oid))
        env.check(i < count, 'format: offset map too short')
        env.check(i not in used, 'format: an object twice at the start')
        used[i] = at
    holes = []
    for i, e in enumerate(entries):
        if i in used:
            env.check(e == used[i], 'format: position in the offset map')
        else:
            env.check(e >= start, 'format: a position of no object')
            holes.append(i)
    # the holes are a cycle through the last entry
    if count:
        seen, j = [], count - 1
        while True:
            env.check(j in holes, 'format: the list of holes')
            seen.append(j)
            j = env.concrete(entries[j] - start)
            if j == count - 1 or len(seen) > count:
                break
        env.check(sorted(seen) == holes, 'format: the list of holes')
    while not r.end():
        first += transaction()
    return [(oid, rec) for oid, rec, at in first]


def read_fs2(env, data):
    r = Reader(env, data)
    env.check(env.eq(r.take(6), b'DFS20\0'), 'format: magic')
    index_offset = r.number()
    out, index = [], None
    places = {}
    pending = []
    while not r.end():
        if index is None and bool(r.pos == index_offset):
            env.check(not pending, 'format: the index in a transaction')
            b = r.take(r.number())
            if not isinstance(b, bytes):
                b = b.concrete()
            index = pickle.loads(zlib.decompress(b))
            env.check(len(index) == len(places), 'format: the index')
            for oid, at in places.items():
                env.check(oid in index and bool(env.eq(index[oid], at)),
                          'format: a position in the index')
            continue
        at = r.pos
        n = r.number(4)
        if bool(n == 0):
            out += pending
            pending = []
            continue
        rec = r.take(n)
        oid = read_record(env, rec)
        plain = env.concrete(env.unpack(oid)).to_bytes(8, 'big')
        if index is None:
            places[plain] = at
        pending.append((plain, rec))
    env.check(not pending, 'format: a transaction without an end')
    env.check(index is not None, 'format: no index')
    return out


READ = {'fs': read_fs, 'fs2': read_fs2}


def contents(env, g):
    fs = WORLD.fs
    return fs.paths[fs.norm(g.store.path)].data


def compare(env, g, live):
    got = {}
    for oid, rec in READ[g.kind](env, contents(env, g)):
        got[env.concrete(env.unpack(oid))] = rec
    for i in live:
        n = env.unpack(g.oids[i])
        env.check(n in got and bool(same(env, got[n], g.model[i][0])),
                  'an independent reader finds another record')
    for n in got:
        env.check(n in [env.unpack(o) for o in g.oids],
                  'an independent reader finds an object never stored')


def read(env, kind, hist):
    g = Graph(env, kind, [1, 1, 0])
    g.s.new_oid()
    live = []
    for j, what in enumerate(hist):
        if what == 'p':
            g.s.pack()
            live = [i for i in live
                    if lookup(g.s, g.oids[i]) is not None]
            continue
        if j == 0:
            which = [0, 1, 2]
        else:
            which = env.choice('which%d' % j, [[0], [0, 1]])
        made = dict((i, g.make(i, [1, 1, 0][i], 1 if j else 3))
                    for i in which if i in live or j == 0)
        g.commit(made)
        live = sorted(set(live) | set(made))
    compare(env, g, live)
    env.observe('live', live)
    env.reach('end')


def slowpack(env, kind):
    """A commit while the pack is running."""
    g = Graph(env, kind, [1, 1, 0])
    g.fill()
    done, n = False, 0
    for step in g.s.get_packer():
        n += 1
        if not done and env.choice('now%d' % n, [False, True]):
            done = True
            g.oids.append(g.s.new_oid())
            g.n = len(g.oids)
            made = {3: g.make(3, 1, 1)}
            made[0] = (record(env, g.oids[0], b'', [g.oids[3]]), [3])
            g.commit(made)
    if not done:
        env.stop()
    compare(env, g, sorted(g.reachable()))
    env.reach('end')


def written(env, kind, base, later):
    from durus.utils import str_to_int8
    model = {}

    def rec(i, name):
        oid = oid8(i)
        refs = [oid8(j) for j in range(env.choice(name + 'refs', 2 if base + later > 2 else 3))]
        r = record(env, oid, env.blob(name, 0, 60), refs)
        model[i] = r
        return r
    first = [(i, rec(i, 'b%d' % i)) for i in
             ([], [0], [0, 2])[base]]
    if env.choice('order', [False, True]):
        first.reverse()
    txns = []
    for t in range(later):
        which = env.choice('txn%d' % t, [[1], [0, 3], []])
        txns.append([(i, rec(i, 't%d.%d' % (t, i))) for i in which])
    if kind == 'fs':
        data = write_fs(env, first, txns)
    else:
        data = write_fs2(env, first, txns)
    st = Store(env, kind)
    fs = WORLD.fs
    fs.paths[fs.norm(st.path)] = Inode(1, data)
    fs.nextid = 2
    readonly = env.choice('readonly', [False, True])
    s = st.open(readonly=readonly)
    env.check(type(s).has_format(s.fp if kind == 'fs2'
                                 else s.shelf.get_file()), 'has_format')
    for i in range(5):
        env.check(same(env, lookup(s, oid8(i)), model.get(i)),
                  'a record of a file laid out as documented')
    pairs = list(s.gen_oid_record())
    env.check(sorted(str_to_int8(o) for o, r in pairs) == sorted(model),
              'the objects of a file laid out as documented')
    if not readonly:
        # it can be added to
        new = [s.new_oid() for j in range(6)]
        for o in new:
            env.check(str_to_int8(o) not in model, 'a new identifier')
        oid = new[0]
        r = record(env, oid, b'x')
        commit(s, [(oid, r)])
        model[str_to_int8(oid)] = r
        s.close()
        s = st.open()
        for i in sorted(model):
            env.check(same(env, lookup(s, oid8(i)), model[i]),
                      'after adding to a file laid out as documented')
    env.observe('n', len(model))
    env.reach('end')


def write_fs(env, first, txns):
    p8 = env.pack8
    parts = [b'SHELF-1\n']
    body, at, pos = [], {}, 16
    for i, r in first:
        at[i] = pos
        body += [p8(env.blen(r) + 8), oid8(i), r]
        pos = pos + 16 + env.blen(r)
    parts += [p8(pos - 16)] + body
    start = pos
    count = max([-1] + list(at)) + 2 if first else 0
    width = env.choice('width', [2, 3, 4, 8] if len(first) + len(txns) < 4
                       else [2, 8])
    parts += [p8(16 + width * count), p8(width), p8(count)]
    holes = [i for i in range(count) if i not in at]
    link = dict(zip(holes, [holes[-1]] + holes[:-1])) if holes else {}
    for i in range(count):
        v = at[i] if i in at else start + link[i]
        b = p8(v)
        parts.append(env.cut(b, 8 - width, 8))
    for t in txns:
        body = []
        for i, r in t:
            body += [p8(env.blen(r) + 8), oid8(i), r]
        parts += [p8(env.blen(env.cat(*body)))] + body
    return env.cat(*parts)


def write_fs2(env, first, txns):
    pos = 14
    body, index = [], {}
    for i, r in first:
        index[oid8(i)] = pos
        body += [env.pack4(env.blen(r)), r]
        pos = pos + 4 + env.blen(r)
    body.append(b'\0\0\0\0')
    pos = pos + 4
    packed = zlib.compress(pickle.dumps(index, 2))
    parts = [b'DFS20\0', env.pack8(pos)] + body + [
        env.pack8(len(packed)), packed]
    for t in txns:
        for i, r in t:
            parts += [env.pack4(env.blen(r)), r]
        parts.append(b'\0\0\0\0')
    return env.cat(*parts)


def plain(b):
    return b if isinstance(b, bytes) else b.concrete()


def objects_read(env, kind):
    """The records of objects: two pickles, the second compressed."""
    import io
    from durus.connection import Connection
    from durus.persistent import Persistent
    from durus.persistent_dict import PersistentDict
    st = Store(env, kind)
    c = Connection(st.open())
    root = c.get_root()
    a, b = Persistent(), PersistentDict()
    root['a'] = a
    root[7] = a
    a.b = b
    a.n = env.int('n', -2 ** 40, 2 ** 40)
    a.s = env.choice('s', ['', 'x' * 300, None])
    if env.choice('cycle', [False, True]):
        b['root'] = root
    b['v'] = env.int('v', 0, 255)
    c.commit()
    recs = {}
    for oid, rec in READ[kind](env, WORLD.fs.paths[
            WORLD.fs.norm(st.path)].data):
        recs[plain(oid)] = plain(rec)
    env.check(len(recs) == 3, 'number of objects')
    for o in (root, a, b):
        rec = recs[o._p_oid]
        n = int.from_bytes(rec[8:12], 'big')
        data, refs = rec[12:12 + n], rec[12 + n:]
        f = io.BytesIO(data)
        u = pickle.Unpickler(f)
        klass = u.load()
        env.check(klass is type(o), 'the class of a record')
        rest = data[f.tell():]
        # the state, by the memo of the same unpickler
        u2 = pickle.Unpickler(io.BytesIO(data[:f.tell()] +
                                         zlib.decompress(rest)))
        found = []
        u2.persistent_load = lambda pid: found.append(pid[0]) or pid
        u2.load()
        state = u2.load()
        env.check(sorted(set(found)) == sorted(set(
            refs[i:i + 8] for i in range(0, len(refs), 8))),
            'the references of a record')
        if o is a:
            env.check(set(state) == set(['b', 'n', 's']), 'attributes')
            env.check(env.eq(state['n'], a.n) and state['s'] == a.s,
                      'values of attributes')
            env.check(state['b'] == (b._p_oid, PersistentDict),
                      'a reference in the state')
        elif o is b:
            env.check(env.eq(state['data']['v'], b['v']), 'values of items')
        else:
            env.check(state['data']['a'] == state['data'][7] ==
                      (a._p_oid, Persistent), 'a reference in the state')
    env.reach('end')


def objects_written(env, kind):
    """Records laid out as documented are read by a connection."""
    import io
    from durus.connection import Connection
    from durus.persistent import Persistent
    from durus.persistent_dict import PersistentDict
    n = env.int('n', -2 ** 40, 2 ** 40)

    def data(klass, state):
        f = io.BytesIO()
        p = pickle.Pickler(f, 2)
        p.persistent_id = lambda o: (o.oid, o.klass) \
            if isinstance(o, Ref) else None
        p.dump(klass)
        k = f.tell()
        p.dump(state)
        d = f.getvalue()
        if env.choice('compressed', [True, False]):
            return d[:k] + zlib.compress(d[k:])
        return d
    r1, r2 = oid8(1), oid8(2)
    root = data(PersistentDict, dict(data={'a': Ref(r1, Persistent),
                                           'b': Ref(r1, Persistent)}))
    a = data(Persistent, dict(n=n, d=Ref(r2, PersistentDict), s='x' * 50))
    d = data(PersistentDict, dict(data={1: n, 'root': Ref(
        oid8(0), PersistentDict)}))
    recs = [(0, record(env, oid8(0), root, [r1])),
            (1, record(env, r1, a, [r2])),
            (2, record(env, r2, d, [oid8(0)]))]
    st = Store(env, kind)
    fs = WORLD.fs
    fs.paths[fs.norm(st.path)] = Inode(1, (
        write_fs if kind == 'fs' else write_fs2)(env, recs[:2], [recs[2:]]))
    fs.nextid = 2
    c = Connection(st.open())
    root = c.get_root()
    env.check(root['a'] is root['b'], 'sharing')
    env.check(env.eq(root['a'].n, n) and root['a'].s == 'x' * 50, 'values')
    env.check(env.eq(root['a'].d[1], n), 'values')
    env.check(root['a'].d['root'] is root, 'cycle')
    env.check(type(root['a'].d) is PersistentDict, 'class')
    root['new'] = 1
    c.commit()
    c2 = Connection(c.get_storage())
    env.check(env.eq(c2.get_root()['a'].d[1], n), 'values after a commit')
    env.reach('end')


class Ref(object):
    def __init__(self, oid, klass):
        self.oid = oid
        self.klass = klass
