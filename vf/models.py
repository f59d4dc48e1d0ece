"""What the instrumented code calls instead of builtins that cannot work on
proxies.  A call whose target is not in the table, or whose arguments hold no
proxy, goes to the real thing."""
import collections.abc
import io
import pickle
import struct
import types
import zlib
import z3
from vf import engine as _e
from vf import sym
from vf.sym import (SymInt, SymBool, SymBytes, SymDict, SymSet, SymReal,
                    is_sym, mkbytes, ISeg, BSeg, CSeg, blen, segs_of,
                    encode_be, decode_be, sym_in, Blob, t)
from vf.engine import Unsupported
from vf.engine import cur as E
from vf.env import WORLD

collections.abc.MutableSet.register(SymSet)
collections.abc.MutableMapping.register(SymDict)

FUNCTIONS = set()


def v_fn(name):
    FUNCTIONS.add(name)


def v_dict(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


def v_dictof(x):
    return SymDict(x)


def v_set(items):
    return SymSet(items)


def v_slice(a, b, c):
    return slice(a, b, c)


_all_bytes_cache = {}


def v_getitem(o, i):
    ti = type(i)
    if ti is SymInt:
        if type(o) in (list, tuple):
            n = len(o)
            if n == 256 and all(
                    type(x) is bytes and x == bytes([k])
                    for k, x in enumerate(o)):
                if i >= 0 and i < 256:
                    return mkbytes([BSeg([i])])
                raise IndexError('list index out of range')
        elif type(o) in (bytes, bytearray):
            return SymBytes([CSeg(bytes(o))]).at(i)
    elif ti is slice and type(o) in (bytes, bytearray) and o and (
            is_sym(i.start) or is_sym(i.stop)):
        if len(o) > 16 and o.count(o[:1]) == len(o):
            return SymBytes([sym.RSeg(o[0], len(o))])[i]
        return as_rope(o)[i]
    return o[i]


def m_len(x):
    if type(x) is SymBytes:
        return x.length()
    if isinstance(x, RopeIO):
        raise TypeError("object of type 'BytesIO' has no len()")
    f = getattr(type(x), '__len__', None)
    if f is not None and isinstance(f, types.FunctionType) and type(
            x).__module__.startswith('durus'):
        n = f(x)            # may be a proxy
        if is_sym(n):
            if n < 0:
                raise ValueError('__len__() should return >= 0')
            return n
        return len(_Len(n))
    return len(x)


class _Len(object):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


_CLASSMAP = {int: (SymInt,), bool: (SymBool,), bytes: (SymBytes,),
             dict: (SymDict,), set: (SymSet,), object: ()}


def m_isinstance(x, c):
    tx = type(x)
    if tx in _PROXY:
        if isinstance(c, tuple):
            return any(m_isinstance(x, k) for k in c)
        if c is int:
            return tx in (SymInt, SymBool)
        if c is object:
            return True
        if tx in _CLASSMAP.get(c, ()):
            return True
        if c in (collections.abc.Mapping, collections.abc.MutableMapping):
            return tx is SymDict
        if c in (collections.abc.Set, collections.abc.MutableSet):
            return tx is SymSet
        if getattr(c, '__module__', '') in ('collections.abc', 'numbers'):
            return isinstance({SymInt: 0, SymBool: True, SymBytes: b'',
                               SymDict: {}, SymSet: set(),
                               sym.SymStr: ''}[tx], c)
        return isinstance(x, c)
    return isinstance(x, c)


_PROXY = {SymInt: int, SymBool: bool, SymBytes: bytes, SymDict: dict,
          SymSet: set, sym.SymStr: str}


def m_type(*a, **k):
    if len(a) == 1 and not k:
        return _PROXY.get(type(a[0]), type(a[0]))
    return type(*a, **k)


def m_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return sym.mkint(sym.t(x))
        if type(x) is SymReal:
            return x.trunc()
        f = getattr(type(x), '__int__', None)
        if isinstance(f, types.FunctionType) and type(
                x).__module__.startswith('durus'):
            return f(x)
    return int(*a, **k)


def m_bool(*a):
    return bool(*a)


def m_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymBytes:
            return x
        if type(x) is SymInt:
            return sym.repeat(b'\0', x)
        if isinstance(x, (list, tuple)) and any(is_sym(b) for b in x):
            for b in x:
                if not (0 <= b and b < 256):
                    raise ValueError('bytes must be in range(0, 256)')
            return mkbytes([BSeg([b]) for b in x])
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    if len(a) == 1 and not k and type(a[0]) is SymBytes:
        return a[0]
    return bytearray(*a, **k)


def m_ord(x):
    if type(x) is SymBytes:
        if x.length() != 1:
            raise TypeError('ord() expected a character')
        return x.at(0)
    return ord(x)


def m_divmod(a, b):
    return divmod(a, b)


def m_range(*a):
    return range(*[x.__index__() if type(x) is SymInt else x for x in a])


def m_dict(*a, **k):
    return SymDict(*a, **k)


def m_set(*a):
    return SymSet(*a)


def m_list(*a):
    return list(*a)


def m_frozenset(*a):
    return frozenset(*a)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_abs(x):
    return abs(x)


def _ctrl(fmt, n):
    raise Unsupported('struct format %r' % fmt)


_SIZES = {'Q': 8, 'L': 4, 'I': 4, 'H': 2, 'B': 1, 'q': 8, 'l': 4, 'i': 4}


def _parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt.startswith(('>', '!', '=', '<', '@')):
        body, order = fmt, '@'
    else:
        order, body = fmt[0], fmt[1:]
    if order not in '>!' and any(c not in 'Bsx0123456789 ' for c in body):
        return None
    out, num = [], ''
    for c in body:
        if c.isdigit():
            num += c
            continue
        if c == ' ':
            continue
        n = int(num) if num else 1
        num = ''
        if c == 's':
            out.append(('s', n))
        elif c in 'QLIHB':
            out.extend([(c, _SIZES[c])] * n)
        else:
            return None
    return out


def m_pack(fmt, *args):
    if not any(is_sym(a) for a in args):
        return struct.pack(fmt, *args)
    items = _parse(fmt)
    if items is None:
        return struct.pack(fmt, *[
            a.__index__() if type(a) is SymInt else
            a.concrete() if type(a) is SymBytes else a for a in args])
    if len(items) != len(args):
        raise struct.error('pack expected %d items' % len(items))
    segs = []
    for (c, n), a in zip(items, args):
        if c == 's':
            a = sym.mkbytes(segs_of(a))
            k = blen(a)
            if k < n:
                segs += segs_of(a) + [sym.RSeg(0, n - k)]
            else:
                segs += segs_of(a[:n])
        else:
            if not sym.isnum(a):
                raise struct.error('required argument is not an integer')
            segs += segs_of(encode_be(
                a, n, struct.error, 'argument out of range'))
    return mkbytes(segs)


def m_unpack(fmt, data):
    if type(data) is not SymBytes:
        return struct.unpack(fmt, data)
    items = _parse(fmt)
    if items is None:
        return struct.unpack(fmt, data.concrete())
    need = sum(n for c, n in items)
    if data.length() != need:
        raise struct.error('unpack requires a buffer of %d bytes' % need)
    out, o = [], 0
    for c, n in items:
        part = data.cut(o, o + n)
        out.append(part if c == 's' else decode_be(part))
        o += n
    return tuple(out)


def m_unpack_from(fmt, data, offset=0):
    if type(data) is not SymBytes and not is_sym(offset):
        return struct.unpack_from(fmt, data, offset)
    size = struct.calcsize(fmt)
    data = mkbytes(segs_of(data))
    if type(data) is bytes:
        data = SymBytes([CSeg(data)])
    if data.length() - offset < size:
        raise struct.error('unpack_from requires a buffer of at least %d' % size)
    return m_unpack(fmt, data[offset:offset + size])


def m_from_bytes(b, byteorder='big', *, signed=False):
    if type(b) is SymBytes and byteorder == 'big' and not signed:
        return decode_be(b)
    if type(b) is SymBytes:
        b = b.concrete()
    return int.from_bytes(b, byteorder, signed=signed)


def m_dumps(x, *a, **k):
    return pickle.dumps(x, *a, **k)


def m_loads(b, *a, **k):
    return pickle.loads(b.concrete() if type(b) is SymBytes else b, *a, **k)


def m_compress(b, *a, **k):
    return zlib.compress(b.concrete() if type(b) is SymBytes else b, *a, **k)


def m_decompress(b, *a, **k):
    return zlib.decompress(b.concrete() if type(b) is SymBytes else b, *a, **k)


class RopeIO(object):
    """io.BytesIO over a rope."""

    def __init__(self, initial=b''):
        self.data = initial
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.data[self.pos:]
        else:
            if type(self.data) is SymBytes or not is_sym(self.pos + n):
                r = self.data[self.pos:self.pos + n]
            else:
                r = rope_slice(self.data, self.pos, self.pos + n)
        self.pos = self.pos + blen(r)
        return r

    def readline(self, n=-1):
        d = self.data
        if type(d) is SymBytes:
            d = d.concrete()
        i = d.find(b'\n', self.pos)
        r = d[self.pos:] if i < 0 else d[self.pos:i + 1]
        self.pos += len(r)
        return r

    def write(self, s):
        if isinstance(s, memoryview):
            s = bytes(s)
        segs_of(s)
        n = blen(s)
        self.data = rope_write(self.data, self.pos, s)
        self.pos = self.pos + n
        return n

    def seek(self, n, whence=0):
        if whence == 0:
            if n < 0:
                raise ValueError('negative seek value %s' % n)
            self.pos = n
        elif whence == 1:
            self.pos = self.pos + n
        else:
            self.pos = blen(self.data) + n
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        if blen(self.data) > size:
            self.data = rope_slice(self.data, 0, size)
        return size

    def getvalue(self):
        return self.data

    def flush(self):
        pass

    def close(self):
        self.closed = True


def as_rope(x):
    if type(x) is SymBytes:
        return x
    return SymBytes([CSeg(bytes(x))] if x else [])


def rope_slice(x, a, b):
    if type(x) is not SymBytes and not is_sym(a) and not is_sym(b):
        return x[a:b]
    return as_rope(x).cut(a, b)


def rope_write(data, pos, s):
    """data with s written at pos (zero filled if pos is past the end)."""
    n = blen(data)
    k = blen(s)
    if type(k) is int and k == 0:
        return data
    if sym._same(pos, n):
        return sym.join(b'', [data, s])
    if pos > n:
        return sym.join(b'', [data, sym.repeat(b'\0', pos - n), s])
    if pos == n:
        return sym.join(b'', [data, s])
    end = pos + k
    head = rope_slice(data, 0, pos)
    if end >= n:
        return sym.join(b'', [head, s])
    return sym.join(b'', [head, s, rope_slice(data, end, n)])


class Content(object):
    """Bytes given by a function from a position (a term) to a value, and by
    one to a bit of the value."""
    count = [0]

    def __init__(self, fn, bit):
        self.fn = fn
        self.bit = bit
        Content.count[0] += 1
        self.id = -Content.count[0]

    def get_id(self):
        return self.id

    def eq(self, o):
        return self is o

    def __call__(self, i):
        return self.fn(i)


def seg_term(s, i, bit=None):
    """Byte i of a segment, or a bit of it."""
    def val(v):
        return t(v) if bit is None else sym.bit(v, bit)
    if type(s) is Blob:
        o = t(s.off) + i
        if bit is None:
            return s.f(o)
        if type(s.f) is Content:
            return s.f.bit(o, bit)
        return (s.f(o) / (1 << bit)) % 2 == 1
    if type(s) is sym.RSeg:
        return val(s.v)
    if type(s) is sym.CSeg:
        if s.b.count(s.b[:1]) == len(s.b):
            return val(s.b[0])
        bs = [val(x) for x in s.b]
    else:
        bs = [val(s.byte(j)) for j in range(s.n)]
    e = bs[-1]
    for j in range(len(bs) - 2, -1, -1):
        e = z3.If(i == j, bs[j], e)
    return e


def rope_term(segs, i, bit=None):
    """Byte i (a term) of a rope, or a bit of it."""
    ends, o = [], 0
    for s in segs:
        o = o + s.n
        ends.append(o)
    e = seg_term(segs[-1], i - t(ends[-2] if len(segs) > 1 else 0), bit)
    for j in range(len(segs) - 2, -1, -1):
        e = z3.If(i < t(ends[j]), seg_term(
            segs[j], i - t(ends[j - 1] if j else 0), bit), e)
    return e


class FlatIO(RopeIO):
    """io.BytesIO whose content is a function of the position: writing in the
    middle decides nothing about where other writes went."""

    def __init__(self, initial=b''):
        self.fn = Content(lambda i: z3.IntVal(0),
                          lambda i, b: z3.BoolVal(False))
        self.n = 0
        self.pos = 0
        self.closed = False
        self.log = []           # (position, length, content) of the writes
        if type(initial) is SymBytes or len(initial):
            self.write(initial)
            self.pos = 0

    @property
    def data(self):
        return mkbytes([Blob(self.fn, 0, self.n)])

    def pieces(self, pos, end, log):
        """The content between two positions a known distance apart as it was
        written, or None where that takes deciding something."""
        eng = E()
        for i in range(log - 1, -1, -1):
            a, b, s = self.log[i]
            if eng.entailed(pos >= b) or eng.entailed(end <= a):
                continue
            d, e = a - pos, b - pos
            if type(d) is not int or type(end - b) is not int and \
                    not eng.entailed(end <= b):
                return None
            left = mid = right = b''
            n = end - pos
            if d > 0:
                left = self.pieces(pos, a, i)
            if type(e) is int and e < n:
                right = self.pieces(b, end, i)
                mid = as_rope(s).cut(max(0, -d), e - d)
            else:
                mid = as_rope(s).cut(max(0, -d), n - d)
            if left is None or right is None:
                return None
            return sym.join(b'', [left, mid, right])
        return None

    def piece(self, pos, k):
        if type(k) is int and k <= 64:
            r = self.pieces(pos, pos + k, len(self.log))
            if r is not None:
                return r
        if type(k) is int and k <= 32:
            return mkbytes([BSeg([sym.byte_of(self.fn, pos + i)
                                  for i in range(k)])])
        return mkbytes([Blob(self.fn, pos, k)])

    def read(self, k=-1):
        n, pos = self.n, self.pos
        if k is None or k < 0:
            k = n - pos
        if not pos < n:
            return b''
        if not pos + k <= n:
            k = n - pos
        self.pos = pos + k
        return self.piece(pos, k)

    def readline(self, n=-1):
        raise Unsupported('readline of a FlatIO')

    def write(self, s):
        if isinstance(s, memoryview):
            s = bytes(s)
        segs = list(segs_of(s))
        for x in segs:
            if type(x) is ISeg:
                x.bytes()       # now: terms must be built without effects
        k = blen(s)
        pos, n = self.pos, self.n
        if type(k) is int and k == 0:
            return 0
        if pos > n:
            self.pos = n
            self.write(sym.repeat(b'\0', pos - n))
            self.pos, n = pos, pos
        old, a, b = self.fn, t(pos), t(pos + k)
        at_end = sym._same(pos, n)

        def fn(i):
            inside = i >= a if at_end else z3.And(i >= a, i < b)
            return z3.If(inside, rope_term(segs, i - a), old(i))

        def bit(i, b_):
            inside = i >= a if at_end else z3.And(i >= a, i < b)
            return z3.If(inside, rope_term(segs, i - a, b_), old.bit(i, b_))
        self.fn = Content(fn, bit)
        self.log.append((pos, pos + k, s))
        if at_end or pos + k > n:
            self.n = pos + k
        self.pos = pos + k
        return k

    def seek(self, n, whence=0):
        if whence == 2:
            self.pos = self.n + n
            return self.pos
        return RopeIO.seek(self, n, whence)

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        if self.n > size:
            self.n = size
        return size

    def getvalue(self):
        return self.data


def m_BytesIO(*a):
    return (FlatIO if WORLD.flatio else RopeIO)(*a)


# attributes with a symbolic name: what is done to them is not the concern of
# the code that decides whether to do it

def m_getattribute(o, name):
    if type(name) is sym.SymStr:
        raise AttributeError('symbolic')
    return object.__getattribute__(o, name)


def m_setattr(o, name, value):
    if type(name) is sym.SymStr:
        return None
    return object.__setattr__(o, name, value)


def m_delattr(o, name):
    if type(name) is sym.SymStr:
        raise AttributeError('symbolic')
    return object.__delattr__(o, name)


TABLE = {}
for _f, _m in [
        (len, m_len), (isinstance, m_isinstance), (type, m_type),
        (int, m_int), (bytes, m_bytes), (bytearray, m_bytearray),
        (ord, m_ord), (range, m_range), (dict, m_dict), (set, m_set),
        (sum, m_sum), (struct.pack, m_pack), (struct.unpack, m_unpack),
        (struct.unpack_from, m_unpack_from), (pickle.dumps, m_dumps),
        (pickle.loads, m_loads), (zlib.compress, m_compress),
        (zlib.decompress, m_decompress), (io.BytesIO, m_BytesIO),
        (object.__getattribute__, m_getattribute),
        (object.__setattr__, m_setattr), (object.__delattr__, m_delattr)]:
    TABLE[id(_f)] = _m
_KEEP = [len, isinstance, type, int, bytes, bytearray, ord, range, dict, set,
         sum, struct.pack, struct.unpack, struct.unpack_from, pickle.dumps,
         pickle.loads, zlib.compress, zlib.decompress, io.BytesIO, object.__getattribute__,
         object.__setattr__, object.__delattr__]

_BuiltinMethod = type(b''.join)
_STRUCT = struct.Struct
_from_bytes = int.from_bytes


def v_call(f, *a, **k):
    m = TABLE.get(id(f))
    if m is not None:
        return m(*a, **k)
    if type(f) is _BuiltinMethod:
        s = f.__self__
        ts = type(s)
        if ts is bytes or ts is bytearray:
            name = f.__name__
            if name == 'join':
                parts = list(a[0])
                if any(type(p) is SymBytes for p in parts):
                    return sym.join(s, parts)
                return f(parts)
            if any(type(x) is SymBytes for x in a):
                return getattr(as_rope(s), name)(*a, **k)
            if ts is bytearray and name == 'extend':
                raise Unsupported('bytearray.extend of a proxy')
        elif ts is _STRUCT:
            name = f.__name__
            if name == 'pack':
                return m_pack(s.format, *a)
            if name == 'unpack':
                return m_unpack(s.format, *a)
            if name == 'unpack_from':
                return m_unpack_from(s.format, *a, **k)
        elif s is int and f.__name__ == 'from_bytes':
            return m_from_bytes(*a, **k)
        elif ts is set or ts is frozenset or ts is dict:
            if any(is_sym(x) or type(x) in (SymSet, SymDict) for x in a):
                if f.__name__ in ('update', 'add', 'setdefault'):
                    if all(not is_sym(x) for x in a):
                        return f(*a, **k)
                    raise Unsupported('native %s holding a proxy'
                                      % ts.__name__)
        elif ts is str and f.__name__ == 'join':
            return f([str(x) if type(x) in (SymInt,) else x for x in a[0]])
    elif type(f) is types.MethodType and type(f.__self__) is SymInt:
        pass
    elif f is dict.fromkeys:
        return SymDict.fromkeys(*a)
    return f(*a, **k)


NAMES = {
    '_vf_call': v_call, '_vf_dict': v_dict, '_vf_dictof': v_dictof,
    '_vf_set': v_set, '_vf_slice': v_slice, '_vf_getitem': v_getitem,
    '_vf_in': sym_in, '_vf_fn': v_fn,
}
