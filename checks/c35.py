"""What a file is opened as, by what it contains."""
from checks.graph import *
from vf.simfs import Inode

EXPECT = ['end', 'unknown', 'class', 'refused']
BOUNDS = ('guessed: any first 0-24 bytes of a file, and the files written by '
          'FileStorage, FileStorage2 (arbitrary records, 0-2 commits) and '
          'SQLite; wrong: files of 1-24 arbitrary bytes that do not start as '
          'the storage that opens them expects, for every combination of '
          'writing, reading and repairing, also files that differ from '
          'proper ones in their first bytes and end up to 20 bytes early; new: a file that does not exist '
          'or is empty')
ASSUMPTIONS = ['the contents of a SQLite file beyond its first bytes belong '
               'to SQLite']
MAGIC = {'fs': b'SHELF-1\n', 'fs2': b'DFS20\0'}


def fakes():
    from vf import net
    return net.fakes()


def cases(tier):
    out = []
    for first in ('any', 'fs', 'fs2', 'sqlite'):
        out.append(dict(name='guess-' + first, func='guess',
                        params=dict(first=first), expect=['end']))
    for kind in ('fs', 'fs2'):
        for n in range(3):
            out.append(dict(name='reopen-%s-%d' % (kind, n), func='reopen',
                            params=dict(kind=kind, n=n), expect=['end']))
        for mode in ('write', 'read', 'repair', 'read-repair'):
            out.append(dict(name='wrong-%s-%s' % (kind, mode), func='wrong',
                            params=dict(kind=kind, mode=mode),
                            expect=['end']))
        for repair in (False, True):
            out.append(dict(name='almost-%s%s' % (kind, '-repair' * repair),
                            func='almost', expect=['end'],
                            params=dict(kind=kind, repair=repair)))
    out.append(dict(name='new', func='new', params={}, expect=['end']))
    return out


def put(env, data):
    fs = WORLD.fs = SimFS(env)
    fs.paths[fs.norm('db')] = Inode(1, data)
    fs.nextid = 2
    fs.checkpoint()
    return fs


def kind_of(env, data):
    n = env.blen(data)
    for kind, magic in (('fs2', b'DFS20'), ('sqlite', b'SQLite format '),
                        ('fs', b'SHELF-1')):
        if bool(n >= len(magic)) and bool(
                env.eq(env.cut(data, 0, len(magic)), magic)):
            return kind
    return None


NAMES = {'fs': 'FileStorage', 'fs2': 'FileStorage2',
         'sqlite': 'SqliteStorage', None: None}


def guessed(path='db'):
    from durus import __main__
    try:
        return __main__.get_storage_class(path).__name__
    except ValueError:
        return None


def guess(env, first):
    magic = {'any': b'', 'fs': b'SHELF-1', 'fs2': b'DFS20',
             'sqlite': b'SQLite format '}[first]
    rest = env.blob('rest', 0, 24 - len(magic))
    data = env.cat(magic, rest)
    fs = put(env, data)
    want = kind_of(env, data)
    got = guessed()
    env.check(got == NAMES[want], 'what a file is opened as')
    env.check(env.eq(fs.inode('db').data, data), 'the file changed')
    env.check(not fs.log, 'written')
    env.observe('got', got)
    env.reach('class' if got else 'unknown')
    env.reach('end')


def reopen(env, kind, n):
    """What was written is found again, with no class given."""
    from durus import __main__
    st = Store(env, kind)
    s = st.open()
    want = []
    for i in range(n):
        oid = s.new_oid()
        rec = record(env, oid, env.blob('r%d' % i, 0, 40),
                     [o for o, r in want])
        commit(s, [(oid, rec)])
        want.append((oid, rec))
    s.close()
    env.check(guessed() == NAMES[kind], 'what the file is opened as')
    for options in (dict(), dict(readonly=True, repair=False),
                    dict(readonly=False, repair=True)):
        r = __main__.get_storage('db', **options)
        env.check(type(r).__name__ == NAMES[kind], 'the class')
        for oid, rec in want:
            env.check(same(env, lookup(r, oid), rec), 'a record')
        r.close()
    name = {'fs': 'durus.file_storage.FileStorage',
            'fs2': 'durus.file_storage2.FileStorage2'}[kind]
    r = __main__.get_storage('db', storage_class=name)
    for oid, rec in want:
        env.check(same(env, lookup(r, oid), rec), 'a record')
    r.close()
    env.reach('end')


def wrong(env, kind, mode):
    """A file of something else is refused and stays what it is."""
    data = env.blob('data', 1, 24)
    magic = MAGIC[kind]
    n = env.blen(data)
    if bool(n >= len(magic)):
        env.assume(env.not_(env.eq(env.cut(data, 0, len(magic)), magic)))
    fs = put(env, data)
    st = Store(env, kind)
    try:
        s = st.open(readonly='read' in mode, repair='repair' in mode)
    except Exception:
        env.reach('refused')
    else:
        env.fail('a file of something else is opened')
    env.check(list(fs.paths) == [fs.norm('db')], 'files')
    env.check(env.eq(fs.inode('db').data, data), 'the file changed')
    env.check(not fs.log, 'written')
    env.reach('end')


def almost(env, kind, repair):
    """All is as it should be but the first bytes, and perhaps the end."""
    st = Store(env, kind)
    s = st.open()
    refs = []
    for i in range(2):
        oid = s.new_oid()
        commit(s, [(oid, record(env, oid, env.blob('r%d' % i, 0, 40),
                                refs))])
        refs.append(oid)
    if env.choice('packed', [False, True]):
        s.pack()
    s.close()
    data = WORLD.fs.inode('db').data
    magic = MAGIC[kind]
    first = env.bytesn('first', len(magic))
    env.assume(env.not_(env.eq(first, magic)))
    cut = env.int('cut', 0, 20)
    data = env.cat(first, env.cut(data, len(magic), env.blen(data) - cut))
    fs = put(env, data)
    readonly = env.choice('readonly', [False, True])
    try:
        Store(env, kind).open(readonly=readonly, repair=repair)
    except Exception:
        env.reach('refused')
    else:
        env.fail('a file of something else is opened')
    env.check(env.eq(fs.inode('db').data, data), 'the file changed')
    env.check(not fs.log, 'written')
    env.reach('end')


def new(env):
    from durus import __main__
    name = env.choice('name', ['db', None])
    empty = env.choice('empty', [False, True])
    kind = env.choice('kind', [None, 'fs', 'fs2'])
    if empty:
        put(env, b'')
    else:
        WORLD.fs = SimFS(env)
    cls = {None: None, 'fs': 'durus.file_storage.FileStorage',
           'fs2': 'durus.file_storage2.FileStorage2'}[kind]
    if empty and cls is None and name:
        env.check(guessed() is None, 'what an empty file is opened as')
        env.stop()
    s = __main__.get_storage(name, storage_class=cls)
    env.check(type(s).__name__ == NAMES[kind or 'fs'], 'the class')
    oid = s.new_oid()
    rec = record(env, oid, env.blob('r', 0, 40))
    commit(s, [(oid, rec)])
    env.check(same(env, lookup(s, oid), rec), 'a record')
    if name:
        s.close()
        env.check(guessed() == NAMES[kind or 'fs'], 'what it is opened as')
        s = __main__.get_storage(name)
        env.check(same(env, lookup(s, oid), rec), 'a record')
    env.reach('end')
