"""The weak dictionary of cached objects."""
import itertools
import sys

EXPECT = ['end']
SIMFS = False
BOUNDS = ('all sequences of 4 operations (thorough 5) out of: set any key (also '
          'with an object dying in the middle of it, as a garbage collection '
          'may cause), death of any object, delete of any key, an iteration '
          'with a death, a delete or a set of a known key between its steps; '
          'all patterns of equal and different keys; and, after any of these, '
          'an operation before any of whose steps (lines of the code) any '
          'object dies')
ASSUMPTIONS = ['only one iteration runs at a time and only keys in use are '
               'deleted, as the class and its user say',
               'objects die when they are dropped, or while a KeyedRef is '
               'made']

OPS = ['set', 'setdie', 'die', 'del', 'iter']


def cases(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for ops in itertools.product(OPS, repeat=n):
        if ops[0] not in ('set', 'iter') or 'set' not in ops:
            continue
        if ops.count('iter') > 1 or ops.count('set') + ops.count(
                'setdie') > 3 or ops[0] == 'iter':
            continue
        out.append(ops)
    groups = {}
    for ops in out:
        groups.setdefault(ops[:2 if tier == 'quick' else 3], []).append(ops)
    return [dict(name='-'.join(k), func='run', params=dict(
        seqs=[list(x) for x in v])) for k, v in sorted(groups.items())] + [
        dict(name='within-%s-%s' % (op, before), func='within',
             params=dict(op=op, before=before))
        for op in ('set', 'again', 'del', 'iter', 'len')
        for before in ('none', 'die', 'del', 'die2')]


class Thing(object):
    pass


class State(object):

    def __init__(self, env):
        from durus.connection import ObjectDictionary
        self.env = env
        self.d = ObjectDictionary()
        self.held = {}          # number -> object, as long as it lives
        self.there = []         # [key, number]: what the dictionary has
        self.keys = []
        self.n = 0

    def want(self, key):
        for k, n in self.there:
            if n in self.held and self.env.eq(k, key):
                return self.held[n]
        return None

    def forget(self, key):
        # (a key is there at most once)
        self.there = [x for x in self.there if not self.env.eq(x[0], key)]

    def set(self, key, dying=None):
        import durus.connection as c
        obj = Thing()
        if dying is not None:
            real = c.KeyedRef

            def keyed_ref(*a):
                del self.held[dying]        # a garbage collection
                return real(*a)
            c.KeyedRef = keyed_ref
            try:
                self.d[key] = obj
            finally:
                c.KeyedRef = real
        else:
            self.d[key] = obj
        self.forget(key)
        self.n += 1
        self.held[self.n] = obj
        self.there.append([key, self.n])
        self.keys.append(key)

    def a_key(self):
        return self.keys[self.env.choice('key', len(self.keys))]

    def check(self):
        env = self.env
        for k in self.keys:
            w = self.want(k)
            env.check(self.d.get(k) is w, 'get')
            env.check(env.eq(k in self.d, w is not None), 'in')
            default = Thing()
            env.check(self.d.get(k, default) is (default if w is None else w),
                      'get with a default')

    def check_all(self):
        live = [k for k, n in self.there if n in self.held]
        self.env.check(len(self.d) == len(live), 'length')
        got = list(self.d)
        self.env.observe('keys', len(got))
        self.env.check(len(got) == len(live), 'keys of an iteration')
        for k in live:
            self.env.check(self.env.any(*[self.env.eq(k, x) for x in got]),
                           'a key missing from an iteration')
        self.env.check(len(self.d) == len(live), 'length after an iteration')


def run(env, seqs):
    ops = env.choice('ops', seqs)
    s = State(env)
    for op in ops:
        if op == 'iter':
            iterate(env, s)
        else:
            step(env, s, op)
        s.check()
    s.check_all()
    s.check()
    env.reach('end')


def step(env, s, op):
    if op == 'set':
        s.set(env.bytesn('k', 8))
    elif op == 'setdie':
        k = env.bytesn('k', 8)
        if not s.held:
            env.stop()
        s.set(k, sorted(s.held)[env.choice('dying', len(s.held))])
    elif op == 'die':
        if not s.held:
            env.stop()
        del s.held[sorted(s.held)[env.choice('dies', len(s.held))]]
    else:
        if not s.keys:
            env.stop()
        k = s.a_key()
        if s.want(k) is None:
            env.stop()
        del s.d[k]
        s.forget(k)


def iterate(env, s):
    """An iteration with something going on between its steps."""
    before = [k for k, n in s.there if n in s.held]
    when = env.choice('when', len(before) + 1)
    it = iter(s.d)
    got = []
    for x in range(when):
        got.append(next(it))
    what = env.choice('what', ['nothing', 'die', 'del', 'again'])
    if what == 'again':
        # a key that is there
        if not before or not when:
            env.stop()
        s.set(before[env.choice('which', len(before))])
    elif what != 'nothing':
        step(env, s, what)
    s.check()
    rest = list(it)
    live = [k for k, n in s.there if n in s.held]
    for k in rest:
        env.check(env.any(*[env.eq(k, x) for x in live]),
                  'an iteration yields a dead or removed key')
    for k in live:
        hits = [x for x in got + rest if env.eq(x, k)]
        env.check(len(hits) == 1, 'an iteration yields a key once')


class Dying(object):
    """At the n-th step of the code of the dictionary, something happens."""

    def __init__(self, when, what):
        self.left = when
        self.what = what
        self.done = False

    def line(self, frame, event, arg):
        if event == 'line' and not self.done:
            self.left -= 1
            if self.left < 0:
                self.done = True
                self.what()
        return self.line

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.endswith('durus/connection.py'):
            return self.line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)

    def __exit__(self, *a):
        sys.settrace(self.old)
        if not self.done:
            self.what()


def within(env, op, before):
    """Any object dies at any step of an operation."""
    s = State(env)
    for i in range(4):
        s.set(bytes([0] * 7 + [i]))
    if before == 'die' or before == 'die2':
        del s.held[2]
        if before == 'die2':
            del s.held[3]
    elif before == 'del':
        k = s.keys[1]
        del s.d[k]
        s.forget(k)
    left = sorted(s.held)
    victim = left[env.choice('dies', len(left))]
    when = env.choice('when', 14)

    def die():
        del s.held[victim]
    obj = Thing()
    got = None
    with Dying(when, die):
        if op == 'set':
            key = bytes([0] * 7 + [9])
            s.d[key] = obj
        elif op == 'again':
            key = s.keys[1]
            s.d[key] = obj
        elif op == 'del':
            key = s.keys[3]
            del s.d[key]
        elif op == 'iter':
            got = list(s.d)
        else:
            got = len(s.d)
    if op in ('set', 'again'):
        s.forget(key)
        s.n += 1
        s.held[s.n] = obj
        s.there.append([key, s.n])
        if key not in s.keys:
            s.keys.append(key)
    elif op == 'del':
        s.forget(key)
    live = [k for k, n in s.there if n in s.held]
    maybe = live + [k for k, n in s.there if n == victim]
    if op == 'iter':
        env.check(len(set(got)) == len(got), 'an iteration yields a key once')
        env.check(set(live) <= set(got) <= set(maybe),
                  'the keys of an iteration')
    elif op == 'len':
        env.check(len(live) <= got <= len(maybe), 'the length')
    s.check()
    s.check_all()
    s.check()
    env.reach('end')
