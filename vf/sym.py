"""Proxy values: unbounded integers, booleans, byte ropes, dicts and sets with
symbolic keys.  Everything that needs a yes/no answer goes through
Engine.decide; everything that must become concrete (a C function needs an
index, a hash) goes through Engine.realize_int, which forks over every feasible
value, so both are exhaustive."""
import fractions
import math
import struct as _struct
import z3
from vf import engine as _e
from vf.engine import Unsupported

I = z3.IntVal


def E():
    return _e.CURRENT


def is_sym(x):
    return type(x) in _SYM


# Integers are linear forms  c + sum(coef * atom)  over atoms: input variables
# and non-linear subterms (div, mod, byte of a blob, if-then-else).  Keeping the
# form explicit lets comparisons that follow from the ranges of the atoms be
# answered without the solver, and z3 terms be built only when they are needed.

class Atom(object):
    __slots__ = ('i', 'e', 'lo', 'hi')

    def __init__(self, i, e, lo, hi):
        self.i = i
        self.e = e
        self.lo = lo
        self.hi = hi


_atoms = []
_atom_of = {}


def atom(key, build, lo=None, hi=None):
    a = _atom_of.get(key)
    if a is None:
        a = Atom(len(_atoms), build(), lo, hi)
        _atoms.append(a)
        _atom_of[key] = a
    return a


def var(name, lo=None, hi=None):
    """An integer variable with a range (the caller asserts the range)."""
    a = atom(('var', name), lambda: z3.Int(name))
    E().bounds[a.i] = (lo, hi)
    return SymInt(((a.i, 1),), 0)


def opaque(e, lo=None, hi=None):
    """An arbitrary z3 integer term."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    a = atom(('expr', e.get_id()), lambda: e, lo, hi)
    return SymInt(((a.i, 1),), 0)


def byte_of(f, off):
    """Byte `off` of an uninterpreted content function."""
    o = off if type(off) is int else (off.k, off.c)
    a = atom(('byte', f.get_id(), o), lambda: f(t(off)), 0, 255)
    eng = E()
    if a.i not in eng.stated:
        eng.stated.add(a.i)
        eng.assume(z3.And(a.e >= 0, a.e <= 255))
        if hasattr(f, 'bit'):
            _bits_of[a.i] = lambda i: f.bit(t(off), i)
    return SymInt(((a.i, 1),), 0)


# Bitwise operations: atoms whose bits are known as Boolean terms.

_bits_of = {}       # atom -> function from a bit number to its term


def bit(x, i):
    """Bit i of x >= 0, as a Boolean term."""
    if type(x) is not SymInt:
        return z3.BoolVal(bool(x >> i & 1))
    if len(x.k) == 1 and not x.c and x.k[0][1] == 1:
        f = _bits_of.get(x.k[0][0])
        if f is not None:
            return f(i)
    return (lin_expr(x.k, x.c) / I(1 << i)) % 2 == 1


def has_bits(x):
    return type(x) is SymInt and len(x.k) == 1 and not x.c and \
        x.k[0][1] == 1 and x.k[0][0] in _bits_of


def with_bits(key, width, f):
    memo = {}

    def g(i):
        if i >= width:
            return z3.BoolVal(False)
        r = memo.get(i)
        if r is None:
            r = memo[i] = f(i)
        return r

    def build():
        return z3.Sum([z3.If(g(i), I(1 << i), I(0)) for i in range(width)])
    a = atom(key, build, 0, (1 << width) - 1)
    _bits_of[a.i] = g
    return SymInt(((a.i, 1),), 0)


def pow2(e, top):
    """2 ** e for 0 <= e <= top."""
    if type(e) is not SymInt:
        return 1 << e
    return with_bits(('pow2', e.k, e.c, top), top + 1, lambda i: t(e) == i)


def small_width(x, negative=False):
    """The number of bits of x, when it is known to be small."""
    if type(x) is not SymInt:
        return x.bit_length() if 0 <= x < 1 << 64 else None
    lo, hi = lin_range(x.k, x.c)
    if lo is None or lo < 0 or hi is None or hi >= 1 << 64:
        return None
    return hi.bit_length()


def bitwise(op, x, y):
    """x op y from the bits, or None."""
    inv = False
    if op == 'and':
        wx = small_width(x)
        if wx is None:
            x, y, wx = y, x, small_width(y)
        if wx is None:
            return None
        wy = small_width(y)
        if wy is None:
            y = -y - 1
            wy = small_width(y)
            if wy is None:
                return None
            inv = True
            w = wx
        else:
            w = min(wx, wy)
    else:
        wx, wy = small_width(x), small_width(y)
        if wx is None or wy is None:
            return None
        w = max(wx, wy)
    if w == 0:
        return 0

    def f(i):
        p, q = bit(x, i), bit(y, i)
        if op == 'and':
            return z3.And(p, z3.Not(q) if inv else q)
        return z3.Or(p, q) if op == 'or' else z3.Xor(p, q)
    return with_bits((op, inv, parts(x), parts(y)), w, f)


def lin_expr(k, c):
    args = []
    for i, q in k:
        e = _atoms[i].e
        args.append(e if q == 1 else q * e)
    if c or not args:
        args.append(I(c))
    return args[0] if len(args) == 1 else z3.Sum(args)


def lin_range(k, c):
    lo = hi = c
    bounds = E().bounds
    for i, q in k:
        a = _atoms[i]
        al, ah = a.lo, a.hi
        bd = bounds.get(i)
        if bd is not None:
            l2, h2 = bd
            if al is None or (l2 is not None and l2 > al):
                al = l2
            if ah is None or (h2 is not None and h2 < ah):
                ah = h2
        if q < 0:
            al, ah = ah, al
        if lo is not None:
            lo = None if al is None else lo + q * al
        if hi is not None:
            hi = None if ah is None else hi + q * ah
        if lo is None and hi is None:
            break
    return lo, hi


def fold(x):
    """x without the atoms this path has pinned to one value."""
    if type(x) is not SymInt:
        return x
    bounds = E().bounds
    k, c, change = [], x.c, False
    for i, q in x.k:
        bd = bounds.get(i)
        if bd is not None and bd[0] is not None and bd[0] == bd[1]:
            c += q * bd[0]
            change = True
        else:
            k.append((i, q))
    return mklin(tuple(k), c) if change else x


def lin_add(k1, k2, q=1):
    """k1 + q * k2"""
    if not k2:
        return k1
    if not k1 and q == 1:
        return k2
    d = dict(k1)
    for i, v in k2:
        n = d.get(i, 0) + q * v
        if n:
            d[i] = n
        else:
            del d[i]
    return tuple(sorted(d.items()))


def parts(x):
    """(k, c) of an int or proxy."""
    if type(x) is SymInt:
        return x.k, x.c
    if type(x) is SymBool:
        y = opaque(z3.If(x.e, I(1), I(0)), 0, 1)
        return parts(y)
    return (), int(x)


def mklin(k, c):
    return SymInt(k, c) if k else c


def t(x):
    """z3 Int term of an int or SymInt."""
    if type(x) is SymInt:
        return x.e
    if type(x) is bool or type(x) is int:
        return I(int(x))
    if type(x) is SymBool:
        return z3.If(x.e, I(1), I(0))
    if isinstance(x, int):
        return I(int(x))
    raise Unsupported('not an integer: %r' % type(x))


def bt(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x) is SymInt:
        return x.e != 0
    raise Unsupported('not a boolean: %r' % type(x))


def mkint(e):
    return opaque(e)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def isnum(x):
    return type(x) in (SymInt, SymBool) or isinstance(x, int)


def le0(k, c):
    """c + k <= 0"""
    if not k:
        return c <= 0
    lo, hi = lin_range(k, c)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return SymBool(None, ('le', k, c))


def eq0(k, c):
    """c + k == 0"""
    if not k:
        return c == 0
    lo, hi = lin_range(k, c)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if lo is not None and lo == hi:
        return True
    if k[0][1] < 0:
        k = tuple((i, -q) for i, q in k)
        c = -c
    g = 0
    for i, q in k:
        g = math.gcd(g, q)
    if c % g:
        return False
    return SymBool(None, ('eq', k, c))


class SymBool(object):
    """A z3 boolean, or a comparison of a linear form with 0 (`key`)."""
    __slots__ = ('_e', 'key')

    def __init__(self, e, key=None):
        self._e = e
        self.key = key

    @property
    def e(self):
        if self._e is None:
            op, k, c = self.key
            if op == 'le':
                self._e = lin_expr(k, 0) <= -c
            elif op == 'eq':
                self._e = lin_expr(k, 0) == -c
            else:
                self._e = lin_expr(k, 0) != -c
        return self._e

    def __bool__(self):
        return E().decide(self)

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(self.e == bt(o))
        if isnum(o):
            return mkbool(t(self) == t(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __and__(self, o):
        return mkbool(z3.And(self.e, bt(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bt(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bt(o)))
    __rxor__ = __xor__

    def __add__(self, o):
        return mkint(t(self) + t(o)) if isnum(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return mkint(t(self) - t(o)) if isnum(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(t(o) - t(self)) if isnum(o) else NotImplemented

    def __repr__(self):
        return '<bool?>'


def sym_not(x):
    if type(x) is SymBool:
        if x.key is not None:
            op, k, c = x.key
            if op == 'le':       # not L <= 0  ==  -L + 1 <= 0
                return SymBool(None, ('le', tuple((i, -q) for i, q in k),
                                      1 - c))
            return SymBool(None, ('ne' if op == 'eq' else 'eq', k, c))
        return mkbool(z3.Not(x.e))
    return not x


def sym_and(*xs):
    if any(x is False for x in xs):
        return False
    ys = [x for x in xs if x is not True]
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0] if type(ys[0]) is SymBool else mkbool(bt(ys[0]))
    return mkbool(z3.And(*[bt(y) for y in ys]))


def sym_or(*xs):
    if any(x is True for x in xs):
        return True
    ys = [x for x in xs if x is not False]
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0] if type(ys[0]) is SymBool else mkbool(bt(ys[0]))
    return mkbool(z3.Or(*[bt(y) for y in ys]))


def eq(a, b):
    """Equality as a term where possible (no fork)."""
    if is_sym(a) or is_sym(b):
        r = a.__eq__(b) if is_sym(a) else NotImplemented
        if r is NotImplemented and is_sym(b):
            r = b.__eq__(a)
        return False if r is NotImplemented else r
    if type(a) in (tuple, list) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return sym_and(*[eq(x, y) for x, y in zip(a, b)])
    return a == b


class SymInt(object):
    __slots__ = ('k', 'c', '_e')

    def __init__(self, k, c):
        self.k = k
        self.c = c
        self._e = None

    @property
    def e(self):
        if self._e is None:
            self._e = lin_expr(self.k, self.c)
        return self._e

    # arithmetic
    def __add__(self, o):
        if isnum(o):
            if type(o) is int:
                return SymInt(self.k, self.c + o) if o else self
            k, c = parts(o)
            return mklin(lin_add(self.k, k), self.c + c)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isnum(o):
            if type(o) is int:
                return SymInt(self.k, self.c - o) if o else self
            k, c = parts(o)
            return mklin(lin_add(self.k, k, -1), self.c - c)
        return NotImplemented

    def __rsub__(self, o):
        if isnum(o):
            k, c = parts(o)
            return mklin(lin_add(k, self.k, -1), c - self.c)
        return NotImplemented

    def scale(self, q):
        if q == 0:
            return 0
        return SymInt(tuple((i, v * q) for i, v in self.k), self.c * q)

    def __mul__(self, o):
        if isnum(o):
            if type(o) in (SymInt, SymBool):
                # keep arithmetic linear: make one side concrete
                return self.scale(o.__index__())
            return self.scale(int(o))
        if isinstance(o, float):
            return SymReal.product(self, o)
        if isinstance(o, (bytes, bytearray)):
            return repeat(bytes(o), self)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return self.scale(-1)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return -self - 1

    def _divisor(self, o):
        o = o if type(o) is int else int(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return o

    def divmod_(self, m):
        """floor division and remainder by a positive constant"""
        if m == 1:
            return self, 0
        q = tuple((i, v // m) for i, v in self.k if v % m == 0)
        rest = tuple((i, v) for i, v in self.k if v % m)
        qc, rc = divmod(self.c, m)
        if not rest:
            return mklin(q, qc), rc
        rlo, rhi = lin_range(rest, rc)
        if rlo is not None and rlo >= 0 and rhi is not None and rhi < m:
            return mklin(q, qc), SymInt(rest, rc)
        d = atom(('div', rest, rc, m), lambda: lin_expr(rest, rc) / I(m))
        eng = E()
        if d.i not in eng.bounds:
            eng.bounds[d.i] = (None if rlo is None else rlo // m,
                               None if rhi is None else rhi // m)
        r = atom(('mod', rest, rc, m), lambda: lin_expr(rest, rc) % I(m),
                 0, m - 1)
        return (mklin(lin_add(q, ((d.i, 1),)), qc), SymInt(((r.i, 1),), 0))

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        o = self._divisor(o)
        if o < 0:
            return (-self).divmod_(-o)[0]
        return self.divmod_(o)[0]

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        o = self._divisor(o)
        if o < 0:
            return -((-self).divmod_(-o)[1])
        return self.divmod_(o)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return self.__index__() / o

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        if type(o) is int and o == 2 and self >= 0:
            return self.__rlshift__(1)
        return o ** self.__index__()

    # bits, for a non-negative value and a concrete mask
    def __and__(self, o):
        if not isnum(o):
            return NotImplemented
        if type(o) is SymInt or has_bits(self):
            r = bitwise('and', self, o)
            if r is not None:
                return r
            if type(o) is SymInt:
                return self.__index__() & o
        m = o.__index__()
        if m == 0:
            return 0
        if m < 0:
            return self - (self & ~m)
        if not self >= 0:
            return self.__index__() & m
        if (m & (m + 1)) == 0:
            return self % (m + 1)
        e, bit = 0, 1
        while bit <= m:
            if m & bit:
                e = e + ((self // bit) % 2) * bit
            bit <<= 1
        return e
    __rand__ = __and__

    def __or__(self, o):
        if not isnum(o):
            return NotImplemented
        if type(o) is SymInt or has_bits(self):
            r = bitwise('or', self, o)
            if r is not None:
                return r
        if type(o) is SymInt:
            o = o.__index__()
        m = o.__index__()
        return self + m - (self & m)
    __ror__ = __or__

    def __xor__(self, o):
        if not isnum(o):
            return NotImplemented
        if type(o) is SymInt or has_bits(self):
            r = bitwise('xor', self, o)
            if r is not None:
                return r
        if type(o) is SymInt:
            o = o.__index__()
        m = o.__index__()
        return self + m - (self & m) * 2
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << o.__index__())

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __rlshift__(self, o):
        if type(o) is int:
            if self < 0:
                raise ValueError('negative shift count')
            hi = lin_range(self.k, self.c)[1]
            if hi is None and self < 64:
                hi = 63
            if hi is not None and hi < 64:
                return o * pow2(self, hi)
        return o << self.__index__()

    def __rrshift__(self, o):
        if type(o) is int and o > 0 and o & (o - 1) == 0 and o < 1 << 64:
            if self < 0:
                raise ValueError('negative shift count')
            n = o.bit_length()
            if self >= n:
                return 0
            return pow2(n - 1 - self, n - 1)
        return o >> self.__index__()

    # comparison
    def __eq__(self, o):
        if isnum(o):
            k, c = parts(o)
            return eq0(lin_add(self.k, k, -1), self.c - c)
        if isinstance(o, float):
            return self == int(o) if o == int(o) else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        if isinstance(o, float):
            return self < -int(-o // 1)
        if not isnum(o):
            return NotImplemented
        k, c = parts(o)
        return le0(lin_add(self.k, k, -1), self.c - c + 1)

    def __le__(self, o):
        if isinstance(o, float):
            return self <= int(o // 1)
        if not isnum(o):
            return NotImplemented
        k, c = parts(o)
        return le0(lin_add(self.k, k, -1), self.c - c)

    def __gt__(self, o):
        if isinstance(o, float):
            return self > int(o // 1)
        if not isnum(o):
            return NotImplemented
        k, c = parts(o)
        return le0(lin_add(k, self.k, -1), c - self.c + 1)

    def __ge__(self, o):
        if isinstance(o, float):
            return self >= -int(-o // 1)
        if not isnum(o):
            return NotImplemented
        k, c = parts(o)
        return le0(lin_add(k, self.k, -1), c - self.c)

    def __bool__(self):
        return bool(self != 0)

    # concretisation (forks over every feasible value)
    def __index__(self):
        lo, hi = lin_range(self.k, self.c)
        if lo is not None and lo == hi:
            return lo
        return E().realize_int(self)
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed or byteorder != 'big':
            return self.__index__().to_bytes(length, byteorder, signed=signed)
        return encode_be(self, length, OverflowError)

    def bit_length(self):
        n = 0
        while not self < (1 << n):
            n += 1
        return n

    def __repr__(self):
        return '<int?>'

    def __format__(self, spec):
        return '<int?>'

    def __reduce_ex__(self, proto):
        return (_untoken, (_token(self),))


_tokens = {}


def _token(x):
    k = len(_tokens)
    _tokens[k] = x
    return k


def _untoken(k):
    return _tokens[k]


class SymReal(object):
    """The result of int * float: a real within half an ulp of the product.
    Only int() of it is supported."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def product(n, f):
        eng = E()
        fr = fractions.Fraction(f)
        r = z3.Real(eng.fresh('fmul'))
        p = z3.ToReal(n.e) * z3.RealVal(str(fr))
        err = z3.RealVal(str(fractions.Fraction(1, 2 ** 52)))
        absp = z3.If(p >= 0, p, -p)
        eng.assume(z3.And(r - p <= absp * err, p - r <= absp * err))
        # a double product of an integer below 2**53 that is exact stays exact
        return SymReal(r)

    def __int__(self):
        return self.trunc().__index__()

    def trunc(self):
        if E().decide(SymBool(self.e >= 0)):
            return mkint(z3.ToInt(self.e))
        return mkint(-z3.ToInt(-self.e))

    def __add__(self, o):
        if isnum(o):
            return SymReal(self.e + z3.ToReal(t(o)))
        return NotImplemented
    __radd__ = __add__


# ---------------------------------------------------------------- byte ropes

class Seg(object):
    __slots__ = ()


class CSeg(Seg):
    """Concrete bytes."""
    __slots__ = ('b', 'n')

    def __init__(self, b):
        self.b = b
        self.n = len(b)

    def byte(self, i):
        return self.b[i]

    def split(self, k):
        k = k.__index__()
        return CSeg(self.b[:k]), CSeg(self.b[k:])


class ISeg(Seg):
    """An unsigned integer, big-endian, in `n` bytes."""
    __slots__ = ('v', 'n', '_bytes')

    def __init__(self, v, n):
        self.v = v
        self.n = n
        self._bytes = None

    def bytes(self):
        if self._bytes is None:
            eng = E()
            base = eng.fresh('byte')
            bs = [var('%s.%d' % (base, i), 0, 255) for i in range(self.n)]
            total = 0
            for b in bs:
                total = total * 256 + b
                eng.assume(z3.And(b.e >= 0, b.e <= 255))
            eng.assume(t(total) == t(self.v))
            self._bytes = bs
        return self._bytes

    def byte(self, i):
        return self.bytes()[i]

    def split(self, k):
        k = k.__index__()
        if self._bytes is not None:
            bs = self._bytes
            return BSeg(bs[:k]), BSeg(bs[k:])
        m = 1 << (8 * (self.n - k))
        v = fold(self.v)
        if type(v) is int:
            return (CSeg((v // m).to_bytes(k, 'big')),
                    CSeg((v % m).to_bytes(self.n - k, 'big')))
        high = v.divmod_(m)[0]
        return ISeg(high, k), ISeg(v - high * m, self.n - k)


class BSeg(Seg):
    """Individual byte values."""
    __slots__ = ('bs', 'n')

    def __init__(self, bs):
        self.bs = bs
        self.n = len(bs)

    def byte(self, i):
        return self.bs[i]

    def split(self, k):
        k = k.__index__()
        return BSeg(self.bs[:k]), BSeg(self.bs[k:])


class Blob(Seg):
    """Arbitrary content: byte i is f(off + i), f uninterpreted into 0..255.
    The length may be symbolic."""
    __slots__ = ('f', 'off', 'n', 'cap')

    def __init__(self, f, off, n, cap=None):
        self.f = f
        self.off = off
        self.n = n
        self.cap = cap          # an upper bound of n, if one is known

    def byte(self, i):
        return byte_of(self.f, self.off + i)

    def split(self, k):
        return (Blob(self.f, self.off, k, self.cap),
                Blob(self.f, self.off + k, self.n - k, self.cap))


class RSeg(Seg):
    """One byte value repeated n times (n may be symbolic)."""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def byte(self, i):
        return self.v

    def split(self, k):
        return RSeg(self.v, k), RSeg(self.v, self.n - k)


def mkbytes(segs):
    """Normalise: drop empty segments, merge concrete ones; plain bytes when
    everything is concrete."""
    out = []
    for s in segs:
        if type(s.n) is int:
            if s.n == 0:
                continue
            if type(s) is RSeg and type(s.v) is int and s.n < 100000:
                s = CSeg(bytes([s.v]) * s.n)
            elif type(s) is ISeg and type(s.v) is int:
                s = CSeg(s.v.to_bytes(s.n, 'big'))
            elif type(s) is BSeg and all(type(b) is int for b in s.bs):
                s = CSeg(bytes(s.bs))
        if type(s) is CSeg and out and type(out[-1]) is CSeg:
            out[-1] = CSeg(out[-1].b + s.b)
        elif type(s) is Blob and out and type(out[-1]) is Blob and \
                out[-1].f.get_id() == s.f.get_id() and _same(out[-1].off + out[-1].n, s.off):
            out[-1] = Blob(s.f, out[-1].off, out[-1].n + s.n, s.cap)
        else:
            out.append(s)
    if not out:
        return b''
    if len(out) == 1 and type(out[0]) is CSeg:
        return out[0].b
    return SymBytes(out)


def _same(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    ka, ca = parts(a)
    kb, cb = parts(b)
    return ca == cb and ka == kb


def repeat(b, n):
    if type(blen(b)) is int and blen(b) == 1:
        if not n > 0:
            return b''
        return mkbytes([RSeg(b[0], n)])
    return b * n.__index__()


def segs_of(x):
    if type(x) is SymBytes:
        return x.segs
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return [CSeg(b)] if b else []
    raise TypeError("a bytes-like object is required, not %r"
                    % type(x).__name__)


def encode_be(v, n, exc, *args):
    if not (0 <= v) or not (v < (1 << (8 * n))):
        raise exc(*(args or ('int too large to convert',)))
    return mkbytes([ISeg(v, n)])


def decode_be(x):
    """Unsigned big-endian value of a rope of concrete length."""
    if isinstance(x, (bytes, bytearray)):
        return int.from_bytes(x, 'big')
    total = 0
    for s in x.segs:
        if type(s) is ISeg:
            total = total * (1 << (8 * s.n)) + s.v
        elif type(s) is CSeg:
            total = total * (1 << (8 * s.n)) + int.from_bytes(s.b, 'big')
        else:
            for i in range(s.n.__index__()):
                total = total * 256 + s.byte(i)
    return fold(total)


def blen(x):
    if type(x) is SymBytes:
        return x.length()
    return len(x)


class SymBytes(object):
    __slots__ = ('segs', '_len')

    def __init__(self, segs):
        self.segs = segs
        self._len = None

    def length(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = n + s.n
            self._len = n
        return self._len

    def __len__(self):
        return self.length().__index__()

    def __bool__(self):
        return bool(self.length() != 0)

    def split_at(self, p):
        """(rope[:p], rope[p:]) as segment lists, 0 <= p <= length."""
        o = 0
        for i, s in enumerate(self.segs):
            if _same(p, o):
                return self.segs[:i], self.segs[i:]
            end = o + s.n
            if _same(p, end):
                return self.segs[:i + 1], self.segs[i + 1:]
            if p <= o:
                return self.segs[:i], self.segs[i:]
            if p < end:
                a, b = s.split(p - o)
                return (list(self.segs[:i]) + [a], [b] + list(self.segs[i + 1:]))
            o = end
        return self.segs, []

    def cut(self, a, b):
        n = self.length()
        if a is None:
            a = 0
        if b is None:
            b = n
        if not _same(a, 0):
            if a < 0:
                a = a + n
                if a < 0:
                    a = 0
            elif a > n:
                a = n
        if not _same(b, n):
            if b < 0:
                b = b + n
                if b < 0:
                    b = 0
            elif b > n:
                b = n
        if _same(a, b) or not a <= b:
            return b''
        left, _ = self.split_at(b)
        _, mid = SymBytes(left).split_at(a)
        return mkbytes(mid)

    def at(self, i):
        n = self.length()
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError('index out of range')
        if not i < n:
            raise IndexError('index out of range')
        o = 0
        for s in self.segs:
            end = o + s.n
            if i < end:
                k = i - o
                if type(s) not in (Blob, RSeg):
                    k = k.__index__()
                return s.byte(k)
            o = end
        raise IndexError('index out of range')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return self.concrete()[i]
            return self.cut(i.start, i.stop)
        return self.at(i)

    def __iter__(self):
        i = 0
        n = self.length()
        while i < n:
            yield self.at(i)
            i += 1

    def bytelist(self):
        out = []
        for s in self.segs:
            n = s.n.__index__()
            for i in range(n):
                out.append(s.byte(i))
        return out

    def concrete(self):
        return bytes([b.__index__() for b in self.bytelist()])

    def __bytes__(self):
        return self.concrete()

    def __add__(self, o):
        if type(o) is SymBytes or isinstance(o, (bytes, bytearray)):
            return mkbytes(list(self.segs) + list(segs_of(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(list(segs_of(o)) + list(self.segs))
        return NotImplemented

    def __mul__(self, n):
        if len(self.segs) == 1 and self.segs[0].n == 1:
            return repeat(self, n)
        n = n.__index__()
        return mkbytes(list(self.segs) * n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not (type(o) is SymBytes or isinstance(o, (bytes, bytearray))):
            return NotImplemented
        la, lb = self.length(), blen(o)
        le = (la == lb)
        if le is False:
            return False
        if le is not True:
            if not bool(le):
                return False
        return rope_eq(list(self.segs), list(segs_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _cmp_int(self, o):
        la, lb = self.length(), blen(o)
        if type(la) is int and la == lb:
            return decode_be(self), decode_be(o)
        return None

    def __lt__(self, o):
        if not (type(o) is SymBytes or isinstance(o, (bytes, bytearray))):
            return NotImplemented
        p = self._cmp_int(o)
        if p is None:
            return self.concrete() < bytes(o)
        return p[0] < p[1]

    def __gt__(self, o):
        if not (type(o) is SymBytes or isinstance(o, (bytes, bytearray))):
            return NotImplemented
        p = self._cmp_int(o)
        if p is None:
            return self.concrete() > bytes(o)
        return p[0] > p[1]

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(self.concrete())

    def __contains__(self, x):
        return x in self.concrete()

    def startswith(self, prefix):
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        n = blen(prefix)
        if not self.length() >= n:
            return False
        return eq(self.cut(0, n), prefix)

    def endswith(self, suffix):
        n = blen(suffix)
        if not self.length() >= n:
            return False
        return eq(self.cut(self.length() - n, None), suffix)

    def lstrip(self, chars=b' \t\n\r\x0b\x0c'):
        if chars == b'\0' and len(self.segs) == 1 and type(self.segs[0]) is ISeg:
            s = self.segs[0]
            k = 0
            while k < s.n and not s.v < (1 << (8 * k)):
                k += 1
            # k bytes are needed
            return mkbytes([ISeg(s.v, k)])
        i, n = 0, self.length()
        while i < n:
            b = self.at(i)
            if not sym_or(*[b == c for c in chars]):
                break
            i += 1
        return self.cut(i, None)

    def join(self, parts):
        return join(self, parts)

    def split(self, sep=None, maxsplit=-1):
        return self.concrete().split(sep, maxsplit)

    def decode(self, *a):
        return self.concrete().decode(*a)

    def hex(self, *a):
        return self.concrete().hex(*a)

    def find(self, *a):
        return self.concrete().find(*a)

    def rjust(self, width, fill=b' '):
        n = self.length()
        if n < width:
            return repeat(fill, width - n) + self
        return self

    def ljust(self, width, fill=b' '):
        n = self.length()
        if n < width:
            return self + repeat(fill, width - n)
        return self

    def tobytes(self):
        return self

    def __repr__(self):
        return '<bytes?>'

    def __format__(self, spec):
        return '<bytes?>'

    def __reduce_ex__(self, proto):
        return (_untoken, (_token(self),))


def join(sep, parts):
    out, first = [], True
    for p in parts:
        if not first:
            out.extend(segs_of(sep))
        first = False
        out.extend(segs_of(p))
    return mkbytes(out)


def rope_eq(a, b):
    """Equality term of two ropes of equal length."""
    conj = []
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if type(x.n) is int and x.n == 0:
            a.pop(0)
            continue
        if type(y.n) is int and y.n == 0:
            b.pop(0)
            continue
        if not _same(x.n, y.n):
            if x.n == y.n:
                pass
            elif x.n < y.n:
                y, rest = y.split(x.n)
                b[0:1] = [y, rest]
            else:
                x, rest = x.split(y.n)
                a[0:1] = [x, rest]
        a.pop(0)
        b.pop(0)
        c = seg_eq(x, y)
        if c is False:
            return False
        if c is not True:
            conj.append(c)
    return sym_and(*conj) if conj else True


def seg_eq(x, y):
    n = x.n
    if type(x) is CSeg and type(y) is CSeg:
        return x.b == y.b
    if type(x) is ISeg and type(y) is ISeg and x.n == y.n:
        return eq(x.v, y.v)
    if type(x) is ISeg and type(y) is CSeg and x.n == y.n:
        return x.v == int.from_bytes(y.b, 'big')
    if type(y) is ISeg and type(x) is CSeg and x.n == y.n:
        return y.v == int.from_bytes(x.b, 'big')
    if type(x) is Blob and type(y) is Blob and \
            x.f.get_id() == y.f.get_id():
        if _same(x.off, y.off):
            return True
    if type(x) is RSeg and type(y) is RSeg and x.v == y.v:
        return True
    if type(n) is not int and type(y.n) is int:
        n = y.n
    if type(n) is int and (n <= 64 or Blob not in (type(x), type(y))):
        return sym_and(*[eq(x.byte(i), y.byte(i)) for i in range(n)])
    return content_eq(x, y, n)


EXACT = 48


def content_eq(x, y, n):
    """Equality of two pieces of content of length n: an atom that is false
    only if some byte differs, and true only if the first EXACT bytes agree.
    (What lies beyond is left open, so that more than the real cases are
    explored, never fewer.)"""
    eng = E()
    p = z3.Bool(eng.fresh('same'))
    w = z3.Int(eng.fresh('differ'))

    def term(s, i):
        if type(s) is Blob:
            return s.f(t(s.off) + i)
        if type(s) is RSeg:
            return t(s.v)
        if type(s) is CSeg:
            if not isinstance(i, int):
                e = z3.IntVal(-1)
                for j, c in enumerate(s.b):
                    e = z3.If(i == j, z3.IntVal(c), e)
                return e
            return z3.IntVal(s.b[i] if i < len(s.b) else -1)
        raise Unsupported('comparison of %s with symbolic length' % type(s))
    for s in (x, y):
        if type(s) in (ISeg, BSeg):
            return sym_and(*[eq(x.byte(i), y.byte(i))
                             for i in range(n.__index__())])
    nt = t(n)
    eng.assume(z3.Implies(z3.Not(p), z3.And(
        w >= 0, w < nt, term(x, w) != term(y, w))))
    cap = min([c for c in (getattr(x, 'cap', None), getattr(y, 'cap', None),
                           n if type(n) is int else None)
               if c is not None], default=EXACT)
    eng.assume(z3.Implies(p, z3.And(*[
        z3.Implies(nt > i, term(x, i) == term(y, i))
        for i in range(min(cap, EXACT))])))
    return SymBool(p)


# ------------------------------------------------------------ dicts and sets

def _hashable_concrete(k):
    ty = type(k)
    if ty in _SYM:
        return False
    if ty is tuple:
        return all(_hashable_concrete(x) for x in k)
    return True


class _Keyed(object):
    """Insertion-ordered association list with an index for concrete keys."""

    def __init__(self):
        self.conc = {}        # concrete key -> entry
        self.syms = []        # entries with symbolic keys
        self.order = []       # all entries; entry = [key, value, alive]
        self.n = 0
        self.version = 0

    def find(self, k):
        if _hashable_concrete(k):
            e = self.conc.get(k)       # native semantics: hash then ==
            if e is not None:
                return e
            for e in self.syms:
                if eq(e[0], k):
                    return e
            return None
        for e in self.order:
            if e[2] and eq(e[0], k):
                return e
        return None

    def set(self, k, v):
        e = self.find(k)
        if e is not None:
            e[1] = v
            return
        e = [k, v, True]
        if _hashable_concrete(k):
            self.conc[k] = e
        else:
            self.syms.append(e)
        self.order.append(e)
        self.n += 1
        self.version += 1

    def remove(self, e):
        e[2] = False
        if _hashable_concrete(e[0]):
            del self.conc[e[0]]
        else:
            self.syms = [x for x in self.syms if x is not e]
        self.order = [x for x in self.order if x is not e]
        self.n -= 1
        self.version += 1

    def clear(self):
        self.__init__()

    def iter(self, what):
        version = self.version
        for e in list(self.order):
            if self.version != version:
                raise RuntimeError(
                    '%s changed size during iteration' % what)
            yield e
        if self.version != version:
            raise RuntimeError('%s changed size during iteration' % what)


_MISSING = object()


class _View(object):
    def __init__(self, d, f, kind):
        self.d, self.f, self.kind = d, f, kind

    def __iter__(self):
        f = self.f
        for e in self.d._k.iter('dictionary'):
            yield f(e)

    def __len__(self):
        return self.d._k.n

    def __contains__(self, x):
        if self.kind == 'keys':
            return x in self.d
        for y in self:
            if eq(x, y):
                return True
        return False

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __reversed__(self):
        return reversed(list(self))

    __hash__ = None


class SymDict(object):

    def __init__(self, *args, **kw):
        self._k = _Keyed()
        self.update(*args, **kw)

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def __getitem__(self, k):
        e = self._k.find(k)
        if e is None:
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        self._k.set(k, v)

    def __delitem__(self, k):
        e = self._k.find(k)
        if e is None:
            raise KeyError(k)
        self._k.remove(e)

    def __contains__(self, k):
        return self._k.find(k) is not None

    def __len__(self):
        return self._k.n

    def __iter__(self):
        for e in self._k.iter('dictionary'):
            yield e[0]

    def __reversed__(self):
        return reversed([e[0] for e in self._k.order])

    def keys(self):
        return _View(self, lambda e: e[0], 'keys')

    def values(self):
        return _View(self, lambda e: e[1], 'values')

    def items(self):
        return _View(self, lambda e: (e[0], e[1]), 'items')

    def get(self, k, d=None):
        e = self._k.find(k)
        return d if e is None else e[1]

    def setdefault(self, k, d=None):
        e = self._k.find(k)
        if e is None:
            self._k.set(k, d)
            return d
        return e[1]

    def pop(self, k, *d):
        e = self._k.find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._k.remove(e)
        return e[1]

    def popitem(self):
        if not self._k.n:
            raise KeyError('popitem(): dictionary is empty')
        e = self._k.order[-1]
        self._k.remove(e)
        return e[0], e[1]

    def clear(self):
        self._k.clear()

    def copy(self):
        return SymDict(self)

    def update(self, *args, **kw):
        if len(args) > 1:
            raise TypeError('update expected at most 1 argument')
        if args:
            o = args[0]
            if isinstance(o, SymDict) or hasattr(o, 'keys'):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k in kw:
            self[k] = kw[k]

    def __eq__(self, o):
        if not isinstance(o, (SymDict, dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k in self:
            if k not in o:
                return False
            if not eq(self[k], o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __copy__(self):
        return SymDict(self)

    def __reduce_ex__(self, proto):
        return (SymDict, (), None, None, iter(list(self.items())))

    def __repr__(self):
        return 'SymDict(%r)' % (list(self.items()),)


class SymSet(object):

    def __init__(self, it=()):
        self._k = _Keyed()
        for x in it:
            self._k.set(x, None)

    def __contains__(self, x):
        return self._k.find(x) is not None

    def __len__(self):
        return self._k.n

    def __iter__(self):
        for e in self._k.iter('Set'):
            yield e[0]

    def add(self, x):
        self._k.set(x, None)

    def discard(self, x):
        e = self._k.find(x)
        if e is not None:
            self._k.remove(e)

    def remove(self, x):
        e = self._k.find(x)
        if e is None:
            raise KeyError(x)
        self._k.remove(e)

    def pop(self):
        if not self._k.n:
            raise KeyError('pop from an empty set')
        e = self._k.order[0]
        self._k.remove(e)
        return e[0]

    def clear(self):
        self._k.clear()

    def copy(self):
        return SymSet(self)
    __copy__ = copy

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def intersection(self, *its):
        out = self
        for it in its:
            o = it if isinstance(it, (SymSet, set, frozenset)) else SymSet(it)
            out = SymSet([x for x in out if sym_in(x, o)])
        return SymSet(out)

    def difference(self, *its):
        out = SymSet(self)
        for it in its:
            for x in list(it):
                out.discard(x)
        return out

    def union(self, *its):
        out = SymSet(self)
        out.update(*its)
        return out

    def symmetric_difference(self, it):
        o = SymSet(it)
        return SymSet([x for x in self if x not in o] +
                      [x for x in o if x not in self])

    def intersection_update(self, *its):
        self._k = self.intersection(*its)._k

    def difference_update(self, *its):
        self._k = self.difference(*its)._k

    def symmetric_difference_update(self, it):
        self._k = self.symmetric_difference(it)._k

    def isdisjoint(self, it):
        for x in it:
            if x in self:
                return False
        return True

    def issubset(self, it):
        o = it if isinstance(it, (SymSet, set, frozenset)) else SymSet(it)
        for x in self:
            if not sym_in(x, o):
                return False
        return True

    def issuperset(self, it):
        for x in it:
            if x not in self:
                return False
        return True

    def _other(self, o):
        return isinstance(o, (SymSet, set, frozenset))

    def __and__(self, o):
        return self.intersection(o) if self._other(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self) if self._other(o) else NotImplemented

    def __or__(self, o):
        return self.union(o) if self._other(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self) if self._other(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._other(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if self._other(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._other(o) else NotImplemented

    def __rxor__(self, o):
        return SymSet(o).symmetric_difference(self) if self._other(o) \
            else NotImplemented

    def __iand__(self, o):
        if not self._other(o):
            return NotImplemented
        self.intersection_update(o)
        return self

    def __ior__(self, o):
        if not self._other(o):
            return NotImplemented
        self.update(o)
        return self

    def __isub__(self, o):
        if not self._other(o):
            return NotImplemented
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        if not self._other(o):
            return NotImplemented
        self.symmetric_difference_update(o)
        return self

    def __eq__(self, o):
        if not self._other(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        if not self._other(o):
            return NotImplemented
        return self.issubset(o)

    def __lt__(self, o):
        if not self._other(o):
            return NotImplemented
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        if not self._other(o):
            return NotImplemented
        return self.issuperset(o)

    def __gt__(self, o):
        if not self._other(o):
            return NotImplemented
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __reduce_ex__(self, proto):
        return (SymSet, (list(self),))

    def __repr__(self):
        return 'SymSet(%r)' % (list(self),)


def sym_in(x, c):
    """x in c, for native containers holding or looked up with proxies."""
    tc = type(c)
    if tc in (set, frozenset, dict) and not _hashable_concrete(x):
        for y in c:
            if eq(x, y):
                return True
        return False
    if tc in (list, tuple) :
        for y in c:
            if x is y or eq(x, y) if (is_sym(x) or is_sym(y)) else (
                    x is y or x == y):
                return True
        return False
    return x in c


class SymStr(object):
    """Text of a concrete length, with characters that may be symbolic."""
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = tuple(chars)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __getitem__(self, i):
        if type(i) is slice:
            return SymStr(self.chars[i])
        return SymStr((self.chars[i],))

    def __iter__(self):
        for c in self.chars:
            yield SymStr((c,))

    def __eq__(self, o):
        if type(o) is str:
            o = SymStr(ord(c) for c in o)
        elif type(o) is not SymStr:
            return NotImplemented
        if len(o.chars) != len(self.chars):
            return False
        return sym_and(*[eq(a, b) for a, b in zip(self.chars, o.chars)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic text')

    def _sub(self, o, at):
        return self[at:at + len(o)] == o

    def startswith(self, prefix, start=0):
        if type(prefix) is tuple:
            return any(bool(self.startswith(p, start)) for p in prefix)
        return self._sub(prefix, start)

    def endswith(self, suffix):
        if len(suffix) > len(self):
            return False
        return self._sub(suffix, len(self) - len(suffix))

    def find(self, sub):
        for i in range(len(self) - len(sub) + 1):
            if self._sub(sub, i):
                return i
        return -1

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __add__(self, o):
        if type(o) is str:
            o = SymStr(ord(c) for c in o)
        return SymStr(self.chars + o.chars)

    def __radd__(self, o):
        return SymStr(tuple(ord(c) for c in o) + self.chars)

    def __repr__(self):
        return '<text>'

    __str__ = __repr__


_SYM = frozenset([SymInt, SymBool, SymBytes, SymReal, SymStr])
