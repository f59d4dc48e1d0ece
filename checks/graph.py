"""Storages holding a graph of arbitrary shape: references are symbolic, and
are decided when the code (or the oracle) looks at them."""
from checks.common import *


class Graph(object):

    def __init__(self, env, kind, fanout, increment=1):
        self.env = env
        self.kind = kind
        self.store = Store(env, kind)
        self.increment = increment
        self.s = None
        self.n = len(fanout)
        self.fanout = fanout
        self.model = {}             # number -> (record, [number])
        self.open()
        self.oids = [self.s.new_oid() for i in range(self.n)]
        self.serial = 0

    def open(self, **kw):
        s = self.store.open(**kw)
        if hasattr(s, '_PACK_INCREMENT'):
            s._PACK_INCREMENT = self.increment
        self.s = s
        return s

    def number(self, oid):
        for i, o in enumerate(self.oids):
            if o == oid:
                return i
        return None

    def ref(self, name, upto):
        """A reference to any of the first `upto` objects."""
        env = self.env
        if upto == 1:
            return 0, self.oids[0]
        if self.oids[:upto] == [oid8(i) for i in range(upto)]:
            k = env.int(name, 0, upto - 1)
            return k, env.pack8(k)
        k = env.choice(name, upto)
        return k, self.oids[k]

    def make(self, i, fanout, upto=None, size=40):
        """A record for object i with `fanout` arbitrary references."""
        env = self.env
        self.serial += 1
        refs = [self.ref('ref%d.%d.%d' % (self.serial, i, j),
                         upto or self.n) for j in range(fanout)]
        data = env.blob('data%d.%d' % (self.serial, i), 0, size)
        return (record(env, self.oids[i], data, [r for k, r in refs]),
                [k for k, r in refs])

    def commit(self, made):
        """made: {number: (record, refs)}"""
        commit(self.s, [(self.oids[i], made[i][0]) for i in sorted(made)])
        self.model.update(made)

    def fill(self):
        self.commit(dict((i, self.make(i, f))
                         for i, f in enumerate(self.fanout)))

    def reachable(self, start=0):
        env = self.env
        seen, todo = set(), [start]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            rec, refs = self.model[i]
            for k in refs:
                todo.append(env.concrete(k))
        return seen

    def check_reachable(self, live, when):
        env = self.env
        for i in sorted(live):
            env.check(same(env, lookup(self.s, self.oids[i]),
                           self.model[i][0]),
                      'a reachable object is missing or stale %s' % when)
