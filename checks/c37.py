"""Databases copied from one file into another."""
import sys
from checks.graph import *
from checks.objs import *
from vf.simfs import SimFS

EXPECT = ['end', 'copied']
BOUNDS = ('copies of 4 objects with arbitrary data (0-40 bytes) and arbitrary '
          'references, after 1-3 commits and with or without a pack, from '
          'each kind of storage, into an empty FileStorage2 or SQLite '
          'storage, of all records or of those reachable from the root, '
          'with batches of 1-4; then a commit of a new object and of a '
          'changed one; renumbering: 4 objects with arbitrary references and '
          'values')
ASSUMPTIONS = ['the storage copied into is not used by anyone else and is '
               'empty', 'pickle is that of the interpreter']
SOURCES = ('fs', 'fs2', 'sqlite', 'memory')


def cases(tier):
    out = []
    for src in SOURCES:
        for dst in ('fs2', 'sqlite'):
            for hist in ('c', 'cc', 'cpc'):
                if src == 'memory' and 'p' in hist:
                    continue
                for reopen in (False, True):
                    if reopen and hist == 'cc' and tier != 'thorough':
                        continue
                    out.append(dict(
                        name='%s-%s-%s%s' % (src, dst, hist,
                                             '-reopened' * reopen),
                        func='copy', expect=['end', 'copied'],
                        params=dict(src=src, dst=dst, hist=hist,
                                    reopen=reopen)))
    for src in ('fs',):
        out.append(dict(name='renumber-%s' % src, func='renumber',
                        expect=['end'], params=dict(src=src, deep=False),
                        weight=2))
    return out


def copy(env, src, dst, hist, reopen):
    from durus.utils import int8_to_str
    g = Graph(env, src, [1, 1, 0, 1])
    for k, h in enumerate(hist):
        if h == 'p':
            g.s.pack()
            live = g.reachable()
            for i in range(g.n):
                if i not in live:
                    g.model.pop(i, None)
        elif k == 0:
            g.fill()
        else:
            # the root, and one that is reachable
            live = sorted(g.reachable())
            made = dict((i, g.make(i, 1)) for i in {0, live[-1]})
            for rec, refs in made.values():
                # to nothing that a pack removed
                if env.concrete(refs[0]) not in g.model:
                    env.stop()
            g.commit(made)
    start = env.choice('start', [None, 0])
    if start is None and src != 'memory':   # which lists what is reachable
        want = dict((g.oids[i], g.model[i][0]) for i in g.model)
        args = {}
    else:
        want = dict((g.oids[i], g.model[i][0]) for i in g.reachable())
        args = {} if start is None else dict(
            start_oid=g.oids[0],
            batch_size=env.choice('batch', [1, 2, 4]))
    olds = list(g.oids)
    to = Store(env, dst)
    to.path = 'copy'
    d = to.open()
    d.create_from_records(g.s.gen_oid_record(**args))
    if reopen:
        d.close()
        d = to.open()

    def look(when):
        for o in g.oids:
            env.check(same(env, lookup(d, o), want.get(o)),
                      'a record of the copy' + when)
        got = list(d.gen_oid_record())
        env.check(sorted(o for o, r in got) == sorted(want),
                  'the records of the copy' + when)
        for o, r in got:
            env.check(same(env, r, want.get(o)), 'a record listed' + when)
    look('')
    env.reach('copied')
    oid = d.new_oid()
    env.check(oid not in want, 'an identifier in use')
    first = g.oids[0]
    want[oid] = record(env, oid, env.blob('new', 0, 40))
    want[first] = record(env, first, env.blob('root', 0, 40), [oid])
    g.oids.append(oid)
    g.oids[:] = sorted(set(g.oids))
    commit(d, [(oid, want[oid]), (first, want[first])])
    look(' after a commit')
    d.close()
    d = to.open()
    look(' when opened again')
    # the source is what it was
    for i in range(g.n):
        env.check(same(env, lookup(g.s, olds[i]),
                       g.model[i][0] if i in g.model else None),
                  'the source after the copy')
    env.reach('end')


def renumber(env, src, deep):
    """bin/db_renumber.py, which makes a database with other identifiers."""
    import io
    from durus.connection import Connection
    from durus.persistent_dict import PersistentDict
    st = Store(env, src)
    c = Connection(st.open())
    K = classes()
    root = c.get_root()
    kinds = ('Plain', 'Dict', 'List')
    objs = [K[k]() for k in kinds]
    for i, o in enumerate(objs):
        root['k%d' % i] = o
    c.commit()
    values = [env.int('v%d' % i, -2 ** 70, 2 ** 70) for i in range(3)]
    everything = [root] + objs
    refs = []
    for i, o in enumerate(objs):
        put(o, 'v', values[i])
        # to any of them (also itself), so that there are cycles and sharing
        r = env.choice('r%d' % i, 4)
        refs.append(r)
        put(o, 'a', everything[r])
        put(o, 'b', ['x', {'k': everything[r]}])
    gone = env.choice('gone', [None, 0, 1, 2])
    if gone is not None:
        del root['k%d' % gone]
    c.commit()
    oids = [o._p_oid for o in everything]
    if env.choice('packed', [False, True]):
        c.pack()
    c.get_storage().close()
    fs = WORLD.fs
    before = fs.inode('db').data
    out, sys.stdout = sys.stdout, io.StringIO()
    argv, sys.argv = sys.argv, ['db_renumber.py', 'db', 'new']
    try:
        from durus import script_db_renumber
        script_db_renumber.main('db', 'new')
    finally:
        sys.stdout = out
        sys.argv = argv
    env.check(env.eq(fs.inode('db').data, before), 'the old file changed')
    st.path = 'new'
    for h in list(fs.handles):
        h.close()
    c2 = Connection(st.open())
    new = c2.get_root()
    env.check(sorted(new) == ['k%d' % i for i in range(3) if i != gone],
              'the keys of the root')
    found = {0: new}
    for i in range(3):
        if i != gone:
            found[i + 1] = new['k%d' % i]
    for i in range(3):
        if i == gone:
            for r, j in zip(refs, range(3)):
                if r == i + 1 and j != gone:
                    found.setdefault(i + 1, fetch(found[j + 1], 'a'))
    seen = {}
    for i, o in sorted(found.items()):
        env.check(seen.setdefault(o._p_oid, i) == i, 'two objects in one')
        if i:
            env.check(type(o) is K[kinds[i - 1]], 'the class')
            env.check(env.eq(fetch(o, 'v'), values[i - 1]), 'the value')
            r = refs[i - 1]
            if r in found or r == 0:
                env.check(fetch(o, 'a') is found[r], 'a reference')
                b = fetch(o, 'b')
                env.check(b[0] == 'x' and b[1]['k'] is found[r],
                          'a reference within a container')
    n = len(list(c2.get_storage().gen_oid_record()))
    env.check(n == len(found), 'the number of objects')
    env.reach('end')
