"""Attribute accesses: what is loaded, noted and stored."""
from checks.objs import *

EXPECT = ['end']
BOUNDS = ('rule: getting, setting and deleting an attribute with any name of '
          'up to 14 (thorough 20) arbitrary characters of an object in any '
          'status, with any serial numbers, and with loading that fails; '
          'programs: up to 3 (thorough 4) operations of any kind on objects '
          'of six classes (attributes, slots, slots and attributes, '
          'dictionary, list, BTree) in any status, then a commit')
ASSUMPTIONS = ['getting, setting or deleting through object is not '
               'modelled for a symbolic name: only whether it is preceded by '
               'loading and noting']

SAFE = ('__repr__', '__class__', '__setstate__')
READS = ('v', 'hasattr', 'getattr', 'state', 'repr', 'none', 'class',
         'method', 'getdict')
WRITES = ('set', 'setnew', 'setsame', 'del', 'noted', 'augmented')
KINDS = ('Plain', 'Slots', 'Both', 'Dict', 'List', 'BTree')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for op in ('get', 'set', 'del'):
        for n in range(21 if deep else 15):
            out.append(dict(name='%s-%d' % (op, n), func='rule',
                            params=dict(op=op, n=n)))
    for kind in KINDS:
        for op in READS + WRITES:
            out.append(dict(name='%s-%s' % (kind, op), func='program',
                            params=dict(kind=kind, ops=[op],
                                        more=2 + deep)))
    return out


class Error(Exception):
    pass


def rule(env, op, n):
    from durus.persistent import (UNSAVED, SAVED, GHOST, PersistentObject,
                                  ConnectionBase)
    name = env.text([env.int('c%d' % i, 1, 0xD7FF, small=127)
                     for i in range(n)])
    log = []

    class Connection(ConnectionBase):
        def load_state(self, obj):
            log.append('load')
            env.check(obj is o, 'loads another object')
            if failing:
                raise Error()

        def note_access(self, obj):
            log.append('access')
            env.check(obj is o, 'notes another object')
            obj._p_serial = self.transaction_serial

        def note_change(self, obj):
            log.append('change')
            env.check(obj is o, 'notes another object')

    class Thing(PersistentObject):
        pass
    o = Thing()
    failing = env.choice('failing', [False, True])
    status = env.choice('status', [UNSAVED, SAVED, GHOST])
    c = None
    now = env.int('now', 1, 1000)
    if status != UNSAVED or env.choice('connected', [True, False]):
        c = Connection()
        c.transaction_serial = now
        o._p_connection = c
        o._p_oid = oid8(1)
        serial = env.int('serial', 0, 1000)
        env.assume(serial <= now)
        o._p_serial = serial
    if status == SAVED:
        o._p_set_status_saved()
    elif status == GHOST:
        o._p_set_status_ghost()
    plain = False
    if n >= 3:
        plain = bool(name[:3] == '_p_')
    for s in SAFE:
        if not plain and len(s) == n:
            plain = bool(name == s)
    if op != 'get' and plain:
        # the attributes of the rule itself: out of its scope
        if op == 'del':
            env.stop()
    if op == 'set' and (plain or n == 8):
        # (do not set what would break the harness itself)
        for s in ('_p_status', '_p_serial', '_p_connection', '_p_oid',
                  '__class__', '__dict__', '_p_load_state',
                  '_p_note_change', '_p_set_status_unsaved',
                  '_p_set_status_saved', '_p_set_status_ghost'):
            if len(s) == n:
                env.assume(env.not_(name == s))
    del log[:]
    failed = None
    # as the interpreter does
    try:
        if op == 'get':
            type(o).__getattribute__(o, name)
        elif op == 'set':
            type(o).__setattr__(o, name, 1)
        else:
            type(o).__delattr__(o, name)
    except Error:
        failed = 'load'
    except (AttributeError, TypeError):
        failed = 'object'
    want = []
    if plain:
        pass
    elif status == GHOST:
        want.append('load')
    ok = status != GHOST or plain or not failing
    env.check((failed == 'load') == (not ok),
              'an error while loading is lost')
    if ok and not plain:
        if op == 'get':
            if c is not None and bool(serial != now):
                want.append('access')
        elif status != UNSAVED:
            want.append('change')
    got = [x for x in log if op == 'get' or x != 'access']
    env.check(got == want, 'attribute rule: loading or noting')
    from durus.persistent import _getattribute
    after = _getattribute(o, '_p_status')
    if not ok:
        env.check(after == GHOST, 'status after an error')
    elif plain:
        env.check(after == status, 'status after a harmless access')
    elif op == 'get':
        env.check(after == (SAVED if status == GHOST else status),
                  'status after reading')
    else:
        env.check(after == UNSAVED, 'status after a change')
    env.observe('log', [failed == 'load', got, after])
    env.reach('end')


def program(env, kind, ops, more):
    from durus.connection import Connection
    from durus.btree import BTree
    from durus.persistent import PersistentObject
    from durus.error import ConflictError
    cls = dict(classes(), BTree=BTree)
    st = Store(env, 'memory')
    s = st.open()
    first = Connection(s)
    root = first.get_root()
    x = cls[kind]()
    v = env.int('v', 0, 99)
    if kind == 'BTree':
        x['v'] = v
    else:
        put(x, 'v', v)
    root['x'] = x
    other = root['y'] = cls['Plain']()
    other.v = 1
    first.commit()
    oid = x._p_oid
    c = Connection(s)
    rec = Recorder(s)
    o = c.get_root()['x']
    y = c.get_root()['y']
    c.abort()
    status = env.choice('status', ['ghost', 'saved', 'unsaved'])
    dirty = False
    current = v
    if status != 'ghost':
        access(o, kind)
        c.abort()
    if status == 'unsaved':
        current = env.int('w', 0, 99)
        change(o, kind, current)
        dirty = True
    accessed = status == 'unsaved'
    loads = c.get_load_count()
    ops = list(ops) + [env.choice('op%d' % i, ['none', 'v', 'set', 'abort',
                                               'commit', 'del'])
                       for i in range(more)]
    for i, op in enumerate(ops):
        x = env.int('x%d' % i, 0, 99)
        if op == 'none':
            continue
        if op in ('abort', 'commit'):
            if op == 'abort':
                c.abort()
                if dirty:
                    current = Connection(s).get_root()['x']
                    current = access(current, kind)
            else:
                del rec.stored[:]
                c.commit()
                env.check((oid in rec.stored) == dirty,
                          'stored if and only if changed')
            dirty = accessed = False
            continue
        got = None
        if op == 'v':
            got = access(o, kind)
            env.check(same(env, got, current), 'the value read')
            accessed = True
        elif op == 'class':
            env.check(o.__class__ is type(o) and isinstance(o, type(o)),
                      'class')
            PersistentObject.__repr__(o)
        elif op == 'hasattr':
            hasattr(o, 'v')
            env.check(not hasattr(o, 'zz'), 'an attribute that is not there')
            accessed = True
        elif op == 'getattr':
            env.check(getattr(o, 'zz', 5) == 5, 'no attribute')
            accessed = True
        elif op == 'state':
            o.__getstate__()
            # what is given is the committed state
            if status == 'ghost':
                env.check(not o._p_is_ghost(), 'the state of nothing')
            if not accessed:
                accessed = None             # may be noted, or not
        elif op == 'repr':
            repr(o)
            if not accessed:
                accessed = None
        elif op == 'method':
            o._p_format_oid()
            env.check(not o._p_is_ghost() or status == 'ghost', 'status')
        elif op == 'getdict':
            if hasattr(o, '__dict__'):
                d = o.__dict__
            if not accessed:
                accessed = None
        else:
            if op == 'noted':
                o._p_note_change()
            elif op == 'del':
                current = remove(o, kind, current)
            elif op == 'setsame':
                if current is None:
                    continue
                change(o, kind, current)
            elif op == 'augmented':
                if current is None:
                    continue
                add(o, kind)
                current = current + 1
            elif op == 'setnew':
                if kind in ('Plain', 'Both'):
                    o.brandnew = x
                else:
                    change(o, kind, x)
                    current = x
            else:
                change(o, kind, x)
                current = x
            dirty = True
            accessed = True
            env.check(o._p_is_unsaved(), 'not marked as changed')
        if not dirty:
            env.check(not o._p_is_unsaved(), 'reading marks it as changed')
    # is the access remembered?  A conflict is raised if so.
    if env.choice('conflicting', [False, True]) and accessed is not None:
        try:
            c._handle_invalidations([oid])
        except ConflictError:
            env.check(accessed, 'a conflict about an object never accessed')
        else:
            env.check(not accessed, 'the access is not remembered')
        env.reach('end')
        return
    del rec.stored[:]
    c.commit()
    env.check((oid in rec.stored) == dirty, 'stored if and only if changed')
    env.check(y._p_oid not in rec.stored, 'another object is stored')
    fresh = Connection(s).get_root()['x']
    env.check(same(env, access(fresh, kind), current), 'the value stored')
    env.check(y.v == 1 and fresh is not o, 'the other object')
    env.observe('stored', dirty)
    env.reach('end')


def access(o, kind):
    if kind == 'BTree':
        return o.get('v')
    return fetch(o, 'v')


def change(o, kind, x):
    if kind == 'BTree':
        o['v'] = x
        # a change of a node: the tree itself is not stored for it
        o._p_note_change()
    else:
        put(o, 'v', x)


def add(o, kind):
    if kind == 'List':
        o[FIELDS.index('v')] += 1
    elif kind == 'BTree':
        o['v'] += 1
        o._p_note_change()
    elif kind == 'Dict':
        o['v'] += 1
    else:
        o.v += 1


def remove(o, kind, current):
    if kind == 'BTree':
        if current is not None:
            del o['v']
        o._p_note_change()
    elif kind == 'List':
        o[FIELDS.index('v')] = None
    elif kind == 'Dict':
        if current is not None:
            del o['v']
        else:
            o.clear()
    elif current is not None:
        del o.v
    else:
        o.a = None
    return None
