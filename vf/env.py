"""The interface a harness is written against, in its concrete form.

A harness is an ordinary function h(env, **params).  In symbolic mode env hands
out proxies (vf.symenv.SymEnv); in concrete mode it hands out the values of one
solver model, and the same harness runs on the unmodified source."""


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    """The harness ends this path."""


class Unmodelled(BaseException):
    """The code asked the simulated environment for something it lacks: no
    verdict is possible."""


class Env(object):
    """Concrete mode."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self._names = {}
        self.observations = []
        self.violations = []
        self.reached = {}
        self.cleanups = []

    def _name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # inputs
    def int(self, name, lo, hi, small=None):
        return self.inputs.get(self._name(name), lo)

    def bool(self, name):
        return bool(self.inputs.get(self._name(name), False))

    def choice(self, name, options):
        if isinstance(options, int):
            options = range(options)
        i = self.inputs.get(self._name(name), 0)
        return options[i]

    def blob(self, name, lo, hi, small=None):
        v = self.inputs.get(self._name(name))
        return bytes.fromhex(v) if v is not None else b'\0' * lo

    def bytesn(self, name, n):
        """n arbitrary bytes, n concrete."""
        return self.blob(name, n, n)

    # containers and logic
    def dict(self, *a):
        return dict(*a)

    def set(self, *a):
        return set(*a)

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def pack8(self, n):
        return n.to_bytes(8, 'big')

    def pack4(self, n):
        return n.to_bytes(4, 'big')

    def unpack(self, b):
        return int.from_bytes(b, 'big')

    def cat(self, *parts):
        return b''.join(parts)

    def blen(self, b):
        return len(b)

    def cut(self, b, i, j):
        return b[i:j]

    def overwrite(self, data, pos, s):
        if not s:
            return data
        if pos > len(data):
            data = data + b'\0' * (pos - len(data))
        return data[:pos] + s + data[pos + len(s):]

    def repeat(self, b, n):
        return b * n

    def zeros(self, n):
        return b'\0' * n

    def BytesIO(self, *a):
        import io
        return io.BytesIO(*a)

    def concrete(self, x):
        return x

    def text(self, codes):
        return ''.join(map(chr, codes))

    # verdicts
    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg, key=None):
        if not cond:
            self.violations.append((msg, key or msg))

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def observe(self, label, value):
        self.observations.append((label, jsonable(value)))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def stop(self):
        raise Stop()

    def on_exit(self, f):
        self.cleanups.append(f)

    def run_cleanups(self):
        while self.cleanups:
            f = self.cleanups.pop()
            f()


def jsonable(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((jsonable(y) for y in x), key=repr)
    if isinstance(x, dict):
        return ['dict'] + sorted(([jsonable(k), jsonable(v)]
                                  for k, v in x.items()), key=repr)
    return '<%s>' % type(x).__name__


class World(object):
    """What the fakes delegate to: set by the harness on every path."""
    fs = None
    net = None
    db = None
    flatio = False          # symbolic mode: BytesIO as a function


WORLD = World()
