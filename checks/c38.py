"""A class that is moved or renamed, and the records that mention it."""
import io
import pickle
import sys
import types
import zlib
from checks.common import *
from checks.objs import put, fetch

EXPECT = ['end', 'touched', 'untouched']
BOUNDS = ('a root and 3 objects (thorough 4), each of any of 3 classes, each '
          'with references to any other one and a reference to itself or '
          'not, a symbolic number, a text that mentions the old name or not; '
          'touched by one or two words, in a connection that has loaded '
          'nothing or everything; then a commit, and a database opened '
          'without the old name')
ASSUMPTIONS = ['the words are those that occur in pickles, as the '
               'documentation says: class and module names, and text']


def cases(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    for kind in ALL_KINDS:
        for words in ('old', 'both', 'none'):
            out.append(dict(name='%s-%s' % (kind, words), func='rename',
                            expect=['end'], weight=2,
                            params=dict(kind=kind, words=words, n=n)))
    return out


def module():
    from durus.persistent import Persistent
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    m = types.ModuleType('vf_zoo')

    class Zebra(Persistent):
        pass

    class Okapi(PersistentDict):
        pass

    class Llama(PersistentList):
        pass
    for c in (Zebra, Okapi, Llama):
        c.__module__ = 'vf_zoo'
        c.__qualname__ = c.__name__
        setattr(m, c.__name__, c)
    sys.modules['vf_zoo'] = m
    return m


def mentions(env, rec, word):
    """By the documented format of a record."""
    rec = rec if isinstance(rec, bytes) else rec.concrete()
    n = int.from_bytes(rec[8:12], 'big')
    data = rec[12:12 + n]
    klass = data[:pickle_end(data)]
    state = data[len(klass):]
    if state[:1] == b'x':
        state = zlib.decompress(state)
    return word in klass or word in state


def pickle_end(data):
    """The length of the first pickle."""
    import pickletools
    f = io.BytesIO(data)
    for op, arg, pos in pickletools.genops(f):
        if op.name == 'STOP':
            return pos + 1


def rename(env, kind, words, n):
    from durus.connection import Connection, touch_every_reference
    m = module()
    st = Store(env, kind)
    storage = st.open()
    c = Connection(storage)
    root = c.get_root()
    classes = [m.Zebra, m.Okapi, m.Llama]
    which = [env.choice('class%d' % i, 3 if i < 2 else 2) for i in range(n)]
    objs = [classes[k]() for k in which]
    values, refs, texts = [], [], []
    for i, o in enumerate(objs):
        root[i] = o
        values.append(env.int('v%d' % i, -2 ** 40, 2 ** 40))
        r = env.choice('ref%d' % i, n + 1) if i < 2 else (i + 1) % n
        refs.append(r)
        t = env.choice('text%d' % i, ['', 'a Zebra, once']) if i == 1 else ''
        texts.append(t)
        put(o, 'v', values[i])
        if r < n:
            put(o, 'a', objs[r])
        put(o, 'b', t)
    hidden = env.choice('hidden', [False, True])
    if hidden:      # only reached through another one
        del root[n - 1]
        put(objs[0], 'a', objs[n - 1])
        refs[0] = n - 1
    c.commit()
    oids = [root._p_oid] + [o._p_oid for o in objs]
    records = dict((o, storage.load(o)) for o in oids)
    # the class has another name now, the old one still works
    z = m.Zebra
    z.__name__ = z.__qualname__ = 'Quagga'
    m.Quagga = z
    ws = {'old': ['Zebra'], 'both': ['Zebra', 'Llama'],
          'none': ['Lemming']}[words]
    want = set(o for o in oids if any(
        mentions(env, records[o], w.encode()) for w in ws))
    if env.choice('fresh', [False, True]):
        if kind != 'memory':
            storage.close()
            storage = st.open()
        c = Connection(storage)
    touch_every_reference(c, *ws)
    got = set(o for o in oids if c.get(o)._p_is_unsaved())
    env.check(got == want, 'the objects that are marked')
    env.reach('touched' if got else 'untouched')
    c.commit()
    for o in oids:
        new = storage.load(o)
        if o not in want:
            env.check(same(env, new, records[o]), 'an untouched record')
        elif words == 'old' and 'a Zebra, once' not in texts:
            env.check(not mentions(env, new, b'Zebra'),
                      'the old name is left in a record')
    if words != 'none' and kind != 'memory':
        del m.Zebra
        storage.close()
        storage = st.open()
        c = Connection(storage)
        root = c.get_root()
        now = [c.get(o) for o in oids[1:]]
        for i, o in enumerate(now):
            env.check(type(o) is classes[which[i]], 'the class of an object')
            env.check(env.eq(fetch(o, 'v'), values[i]), 'a value')
            env.check(fetch(o, 'b') == texts[i], 'a text')
            env.check(fetch(o, 'a') is (now[refs[i]] if refs[i] < n
                                        else None), 'a reference')
    env.reach('end')
