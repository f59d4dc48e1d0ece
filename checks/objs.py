"""Graphs of persistent objects, and what they should look like."""
from checks.common import *


def classes():
    """Persistent classes of the durus that is loaded."""
    from durus.persistent import Persistent, PersistentObject
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    g = globals()
    if g.get('_for') is not Persistent:
        class Plain(Persistent):
            pass

        class Slots(PersistentObject):
            __slots__ = ['a', 'b', 'v', 'extra']

        class Both(Slots):
            # slots, and a dictionary for the rest
            pass

        class Dict(PersistentDict):
            pass

        class List(PersistentList):
            pass

        for c in (Plain, Slots, Both, Dict, List):
            c.__module__ = __name__
            c.__qualname__ = c.__name__
            g[c.__name__] = c
        g['_for'] = Persistent
    return dict((n, g[n]) for n in ('Plain', 'Slots', 'Both', 'Dict', 'List'))


FIELDS = ('a', 'b', 'v', 'extra')


def put(o, name, value):
    kind = type(o).__name__
    if kind in ('Dict', 'PersistentDict'):
        o[name] = value
    elif kind == 'List':
        while len(o) < len(FIELDS):
            o.append(None)
        o[FIELDS.index(name)] = value
    else:
        setattr(o, name, value)


def fetch(o, name):
    kind = type(o).__name__
    if kind in ('Dict', 'PersistentDict'):
        return o.get(name)
    if kind == 'List':
        i = FIELDS.index(name)
        return o[i] if i < len(o) else None
    return getattr(o, name, None)


class Recorder(object):
    """Counts what is stored, and fails when asked to."""

    def __init__(self, storage):
        self.stored = []
        self.storage = storage
        store = storage.store

        def recording(oid, rec):
            self.stored.append(oid)
            return store(oid, rec)
        storage.store = recording


def compare(env, connection, root, what, fields=FIELDS):
    """The committed graph, seen by a connection, is that of the live
    objects from `root` on. -> {oid: live object}"""
    from durus.persistent import PersistentBase
    other = connection.get_root()
    pairs, seen = [(root, other)], {}

    def value(x, y):
        if isinstance(x, PersistentBase):
            env.check(isinstance(y, PersistentBase), what + ': a reference')
            env.check(x._p_oid is not None, what + ': a reachable object '
                      'without identifier')
            env.check(y._p_oid == x._p_oid, what + ': a reference to another '
                      'object')
            pairs.append((x, y))
        elif isinstance(x, (list, tuple)):
            env.check(type(x) is type(y) and len(x) == len(y),
                      what + ': a sequence')
            for p, q in zip(x, y):
                value(p, q)
        elif isinstance(x, dict):
            env.check(isinstance(y, dict) and len(x) == len(y),
                      what + ': a mapping')
            for k in x:
                env.check(k in y, what + ': a key')
                value(x[k], y[k])
        else:
            env.check(env.eq(x, y) and (x is None) == (y is None),
                      what + ': a value')
    while pairs:
        x, y = pairs.pop()
        env.check(type(x) is type(y), what + ': a class')
        if id(x) in seen:
            env.check(seen[id(x)][1] is y, what + ': one object became two')
            continue
        seen[id(x)] = (x, y)
        if type(x).__name__ == 'PersistentDict':
            env.check(sorted(x.keys()) == sorted(y.keys()),
                      what + ': the keys of the root')
            for k in x.keys():
                value(x[k], y[k])
        else:
            for f in fields:
                value(fetch(x, f), fetch(y, f))
    return dict((x._p_oid, x) for x, y in seen.values())
