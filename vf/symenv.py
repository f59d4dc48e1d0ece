"""env for symbolic mode."""
import z3
from vf import sym, models
from vf.env import Stop
from vf.sym import SymInt, SymBool, SymBytes, SymDict, SymSet, Blob, is_sym, t


def snapshot(x):
    """A mutable container as it is now."""
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, (dict, SymDict)):
        return SymDict([(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset, SymSet)):
        return SymSet(x)
    return x


class SymEnv(object):
    symbolic = True

    def __init__(self, engine):
        self.e = engine
        self.vars = []          # (name, kind, term..) of this path
        self.hints = []
        self.observations = []
        self.cleanups = []
        self._names = {}
        self.on_violation = None
        self.reached = {}

    def _name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # inputs
    def int(self, name, lo, hi, small=None):
        name = self._name(name)
        clo = sym.lin_range(lo.k, lo.c)[0] if type(lo) is SymInt else lo
        chi = sym.lin_range(hi.k, hi.c)[1] if type(hi) is SymInt else hi
        x = sym.var('in.' + name, clo, chi)
        v = x.e
        if lo is not None:
            self.e.assume(v >= t(lo))
        if hi is not None:
            self.e.assume(v <= t(hi))
        self.vars.append((name, 'int', v))
        if small is not None:
            self.hints.append(v <= small)
        if type(lo) is int and type(hi) is int and lo == hi:
            return lo
        return x

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool('in.' + name)
        self.vars.append((name, 'bool', v))
        return SymBool(v)

    def choice(self, name, options):
        if isinstance(options, int):
            options = range(options)
        if len(options) == 1:
            self._name(name)
            return options[0]
        name = self._name(name)
        x = sym.var('in.' + name, 0, len(options) - 1)
        self.e.assume(z3.And(x.e >= 0, x.e < len(options)))
        self.vars.append((name, 'int', x.e))
        return options[x.__index__()]

    def blob(self, name, lo, hi, small=None):
        name = self._name(name)
        f = z3.Function('blob.' + name, z3.IntSort(), z3.IntSort())
        if lo == hi:
            n = lo
            nt = z3.IntVal(lo)
        else:
            n = sym.var('len.' + name, lo, hi)
            nt = n.e
            self.e.assume(z3.And(nt >= lo, nt <= hi))
            self.hints.append(nt <= (small or max(lo, 64)))
        self.vars.append((name, 'blob', f, nt))
        return sym.mkbytes([Blob(f, 0, n, hi)])

    def bytesn(self, name, n):
        name = self._name(name)
        xs = [sym.var('in.%s.%d' % (name, i), 0, 255) for i in range(n)]
        for x in xs:
            self.e.assume(z3.And(x.e >= 0, x.e <= 255))
        self.vars.append((name, 'bytes', [x.e for x in xs]))
        return sym.mkbytes([sym.BSeg(xs)])

    def text(self, codes):
        return sym.SymStr(codes)

    def dict(self, *a):
        return SymDict(*a)

    def set(self, *a):
        return SymSet(*a)

    def all(self, *xs):
        return sym.sym_and(*xs)

    def any(self, *xs):
        return sym.sym_or(*xs)

    def not_(self, x):
        return sym.sym_not(x)

    def implies(self, a, b):
        return sym.sym_or(sym.sym_not(a), b)

    def eq(self, a, b):
        return sym.eq(a, b)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return sym.mkint(z3.If(sym.bt(c), t(a), t(b)))

    def pack8(self, n):
        return models.m_pack('>Q', n)

    def pack4(self, n):
        return models.m_pack('>L', n)

    def unpack(self, b):
        return sym.decode_be(b)

    def cat(self, *parts):
        return sym.join(b'', parts)

    def blen(self, b):
        return sym.blen(b)

    def cut(self, b, i, j):
        return models.rope_slice(b, i, j)

    def overwrite(self, data, pos, s):
        return models.rope_write(data, pos, s)

    def repeat(self, b, n):
        return sym.repeat(b, n)

    def zeros(self, n):
        return sym.repeat(b'\0', n)

    def BytesIO(self, *a):
        return models.m_BytesIO(*a)

    def concrete(self, x):
        """Fork over every feasible value."""
        if type(x) is SymInt:
            return x.__index__()
        if type(x) is SymBool:
            return bool(x)
        if type(x) is SymBytes:
            return x.concrete()
        return x

    # verdicts
    def assume(self, cond):
        if type(cond) is SymBool:
            self.e.assume(cond.e)
            if cond.key is not None:
                self.e.note(cond.key, True)
        elif not cond:
            self.e.assume(False)

    def check(self, cond, msg, key=None):
        expr = cond.e if type(cond) is SymBool else bool(cond)
        self.e.check(expr, lambda m, failing: self.on_violation(
            m, failing, msg, key or msg))

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def observe(self, label, value):
        self.observations.append((label, snapshot(value)))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def stop(self):
        raise Stop()

    def on_exit(self, f):
        self.cleanups.append(f)

    def run_cleanups(self):
        while self.cleanups:
            f = self.cleanups.pop()
            f()

    # models
    def model_inputs(self, m):
        def val(e):
            return m.eval(e, model_completion=True).as_long()
        out = {}
        for v in self.vars:
            if v[1] == 'int':
                out[v[0]] = val(v[2])
            elif v[1] == 'bool':
                out[v[0]] = z3.is_true(m.eval(v[2], model_completion=True))
            elif v[1] == 'bytes':
                out[v[0]] = bytes([val(b) & 255 for b in v[2]]).hex()
            else:
                n = val(v[3])
                if n > 4000000:
                    raise ValueError('model too large to replay')
                out[v[0]] = bytes([val(v[2](i)) & 255
                                   for i in range(n)]).hex()
        return out

    def value(self, m, x):
        """x under the model, in the form vf.env.jsonable gives."""
        def ev(e):
            return m.eval(e, model_completion=True)
        if type(x) is SymInt:
            return ev(x.e).as_long()
        if type(x) is SymBool:
            return z3.is_true(ev(x.e))
        if type(x) is SymBytes:
            return 'b:' + self.bytes_value(m, x).hex()
        if type(x) is sym.SymStr:
            return ''.join(chr(c if type(c) is int else ev(c.e).as_long())
                           for c in x.chars)
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, int):
            return int(x)
        if isinstance(x, (bytes, bytearray)):
            return 'b:' + bytes(x).hex()
        if isinstance(x, (list, tuple)):
            return [self.value(m, y) for y in x]
        if isinstance(x, (set, frozenset, SymSet)):
            return ['set'] + sorted((self.value(m, y) for y in x), key=repr)
        if isinstance(x, (dict, SymDict)):
            return ['dict'] + sorted(([self.value(m, k), self.value(m, v)]
                                      for k, v in x.items()), key=repr)
        return '<%s>' % type(x).__name__

    def bytes_value(self, m, x):
        def ev(v):
            return m.eval(t(v), model_completion=True).as_long()
        out = b''
        for s in x.segs:
            if type(s) is sym.CSeg:
                out += s.b
            elif type(s) is sym.ISeg:
                out += ev(s.v).to_bytes(s.n, 'big')
            elif type(s) is sym.BSeg:
                out += bytes([ev(b) & 255 for b in s.bs])
            elif type(s) is sym.RSeg:
                out += bytes([ev(s.v)]) * ev(s.n)
            else:
                off, n = ev(s.off), ev(s.n)
                out += bytes([m.eval(s.f(z3.IntVal(off + i)),
                                     model_completion=True).as_long() & 255
                              for i in range(n)])
        return out
