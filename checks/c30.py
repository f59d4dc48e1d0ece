"""Encodings of numbers, strings, records and messages."""
import struct

EXPECT = ['end']
SIMFS = False
BOUNDS = ('all 32 and 64 bit numbers and numbers just out of range; strings '
          'and records of 0-3000 bytes with arbitrary contents (messages of '
          'up to 2500000 bytes); 0-12 references (thorough 40); 0-3 '
          'partial reads or writes of a socket (thorough 5) before the rest, '
          '0-11 attempts that send nothing')
ASSUMPTIONS = ['the socket is a double that delivers a prefix of what is '
               'asked for, as recv and send may']

BIG = 2500000


def cases(tier):
    out = [dict(name=n, func=n.replace('-', '_'), params={}) for n in (
        'numbers', 'record', 'record-back', 'record-short', 'sequence')]
    for n in range(13 if tier == 'quick' else 41):
        out.append(dict(name='oids-%d' % n, func='oids', params=dict(n=n)))
    out.append(dict(name='oids-odd', func='oids_odd', params={}))
    for kind in ('int4', 'int8'):
        out.append(dict(name='file-' + kind, func='file_',
                        params=dict(kind=kind)))
        k = 3 if tier == 'quick' else 5
        out.append(dict(name='recv-' + kind, func='recv', weight=3,
                        params=dict(kind=kind, k=k)))
        out.append(dict(name='send-' + kind, func='send', weight=3,
                        params=dict(kind=kind, k=k)))
    out.append(dict(name='recv-large', func='recv_large', params={}))
    out.append(dict(name='send-stuck', func='send_stuck', params={}))
    out.append(dict(name='write-all', func='write_all_', params={}))
    return out


def refused(f, *errors):
    try:
        f()
    except errors:
        return True
    return False


def numbers(env):
    from durus import utils as u
    for enc, dec, size, put, get in (
            (u.int8_to_str, u.str_to_int8, 8, u.write_int8, u.read_int8),
            (u.int4_to_str, u.str_to_int4, 4, u.write_int4, u.read_int4)):
        n = env.int('n', -3, 256 ** size + 3)
        if env.all(n >= 0, n < 256 ** size):
            s = enc(n)
            env.check(env.blen(s) == size, 'length')
            env.check(env.unpack(s) == n, 'encoding')
            env.check(dec(s) == n, 'round trip')
            f = env.BytesIO()
            put(f, n)
            put(f, 7)
            f.seek(0)
            env.check(get(f) == n, 'round trip in a file')
            env.check(get(f) == 7, 'position in the file')
            env.check(refused(lambda: get(f), u.ShortRead), 'end of file')
            env.observe('s', s)
        else:
            env.check(refused(lambda: enc(n), struct.error), 'out of range')
        b = env.bytesn('b', size)
        env.check(env.eq(enc(dec(b)), b), 'round trip')
        short = env.blob('short', 0, size - 1)
        env.check(refused(lambda: dec(short), struct.error), 'short input')
        f = env.BytesIO()
        f.write(short)
        f.seek(0)
        env.check(refused(lambda: get(f), u.ShortRead), 'short file')
    env.reach('end')


def record(env):
    from durus.serialize import pack_record, unpack_record
    oid = env.bytesn('oid', 8)
    data = env.blob('data', 0, 3000)
    refs = env.blob('refs', 0, 800)
    r = pack_record(oid, data, refs)
    env.check(env.eq(r, env.cat(oid, env.pack4(env.blen(data)), data, refs)),
              'layout')
    o, d, f = unpack_record(r)
    env.check(env.eq(o, oid), 'identifier')
    env.check(env.eq(d, data), 'data')
    env.check(env.eq(f, refs), 'references')
    env.observe('d', d)
    env.reach('end')


def record_back(env):
    from durus.serialize import pack_record, unpack_record
    n = env.int('n', 0, 500)
    rest = env.blob('rest', 0, 1000)
    env.assume(n <= env.blen(rest))
    r = env.cat(env.bytesn('oid', 8), env.pack4(n), rest)
    oid, data, refs = unpack_record(r)
    env.check(env.blen(data) == n, 'length of the data')
    env.check(env.eq(pack_record(oid, data, refs), r), 'round trip')
    env.reach('end')


def record_short(env):
    from durus.serialize import unpack_record
    r = env.blob('r', 0, 11)
    env.check(refused(lambda: unpack_record(r), struct.error),
              'a record without a header')
    env.reach('end')


def oids(env, n):
    from durus.serialize import split_oids, pack_record, unpack_record
    refs = [env.bytesn('oid', 8) for x in range(n)]
    got = split_oids(env.cat(*refs))
    env.check(isinstance(got, list), 'a list')
    env.check(env.eq(got, refs), 'references')
    r = pack_record(env.bytesn('o', 8), env.blob('data', 0, 50),
                    env.cat(*refs))
    env.check(env.eq(split_oids(unpack_record(r)[2]), refs),
              'references of a record')
    env.observe('got', got)
    env.reach('end')


def oids_odd(env):
    from durus.serialize import split_oids
    s = env.blob('s', 0, 200)
    n = env.blen(s)
    env.assume(n % 8 != 0)
    env.check(refused(lambda: split_oids(s), AssertionError, ValueError,
                      struct.error), 'not a list of identifiers')
    env.reach('end')


def helpers(kind):
    from durus import utils as u
    if kind == 'int4':
        return u.read_int4_str, u.write_int4_str, 4
    return u.read_int8_str, u.write_int8_str, 8


def file_(env, kind):
    from durus.utils import ShortRead
    get, put, w = helpers(kind)
    s = env.blob('s', 0, 3000)
    after = env.blob('after', 0, 40)
    f = env.BytesIO()
    put(f, s)
    f.write(after)
    f.seek(0)
    env.check(env.eq(get(f), s), 'string')
    env.check(f.tell() == env.blen(s) + w, 'position')
    whole = env.blen(s) + w
    n = env.int('n', 0, 3007)
    env.assume(n < whole)
    g = env.BytesIO()
    f.seek(0)
    g.write(f.read(n))
    g.seek(0)
    env.check(refused(lambda: get(g), ShortRead), 'a string cut short')
    env.reach('end')


def sequence(env):
    from durus import utils as u
    a, b = env.blob('a', 0, 300), env.blob('b', 0, 300)
    n, m = env.int('n', 0, 2 ** 64 - 1), env.int('m', 0, 2 ** 32 - 1)
    f = env.BytesIO()
    u.write_int8(f, n)
    u.write_int4_str(f, a)
    u.write_int4(f, m)
    u.write_int8_str(f, b)
    u.write(f, 'x\xff')
    f.seek(0)
    env.check(u.read_int8(f) == n, 'first')
    env.check(env.eq(u.read_int4_str(f), a), 'second')
    env.check(u.read_int4(f) == m, 'third')
    env.check(env.eq(u.read_int8_str(f), b), 'fourth')
    env.check(env.eq(u.read(f, 2), b'x\xff'), 'fifth')
    env.check(refused(lambda: u.read(f, 1), u.ShortRead), 'the end')
    env.reach('end')


class Sock(object):
    """The other side has sent `data`, and then closed."""

    def __init__(self, env, data, k):
        self.env = env
        self.data = data
        self.k = k
        self.sent = b''

    def recv(self, n):
        env = self.env
        env.check(n > 0, 'asked for nothing')
        m = env.blen(self.data)
        if n > m:
            n = m
        if self.k and n > 1:
            self.k -= 1
            p = env.int('piece', 1, BIG)
            env.assume(p <= n)
            n = p
        out = env.cut(self.data, 0, n)
        self.data = env.cut(self.data, n, m)
        return out

    def send(self, s):
        env = self.env
        n = env.blen(s)
        if self.k:
            self.k -= 1
            p = env.int('piece', 0, BIG)
            env.assume(p <= n)
            n = p
        self.sent = env.cat(self.sent, env.cut(s, 0, n))
        return n


def recv(env, kind, k):
    from durus.utils import ShortRead
    get, put, w = helpers(kind)
    s = env.blob('s', 0, 3000)
    n = env.blen(s)
    after = env.blob('after', 0, 30)
    whole = env.cat(env.pack4(n) if w == 4 else env.pack8(n), s, after)
    if env.choice('closes', [False, True]):
        cut = env.int('cut', 0, 3010)
        env.assume(cut < n + w)
        sock = Sock(env, env.cut(whole, 0, cut), k)
        env.check(refused(lambda: get(sock), ShortRead), 'cut short')
    else:
        sock = Sock(env, whole, k)
        got = get(sock)
        env.check(env.eq(got, s), 'message')
        env.check(env.eq(sock.data, after), 'what follows the message')
        env.observe('got', got)
    env.reach('end')


def recv_large(env):
    from durus.utils import read
    s = env.blob('s', 0, BIG, small=20)
    n = env.int('n', 0, BIG)
    env.assume(n <= env.blen(s))
    sock = Sock(env, s, 1)
    got = read(sock, n)
    env.check(env.eq(got, env.cut(s, 0, n)), 'message')
    env.check(env.blen(sock.data) == env.blen(s) - n, 'rest')
    env.reach('end')


def send(env, kind, k):
    get, put, w = helpers(kind)
    s = env.blob('s', 0, 3000)
    n = env.blen(s)
    sock = Sock(env, b'', k)
    put(sock, s)
    env.check(env.eq(sock.sent, env.cat(
        env.pack4(n) if w == 4 else env.pack8(n), s)), 'message')
    env.observe('sent', sock.sent)
    env.reach('end')


class Stuck(object):

    def __init__(self, n):
        self.n = n
        self.calls = 0

    def send(self, s):
        self.calls += 1
        if self.n:
            self.n -= 1
            return 0
        return len(s)


def send_stuck(env):
    """Nothing gets through for a while, or ever: the caller must not be told
    that the message was sent when it was not, nor be kept for ever."""
    from durus.utils import write
    n = env.choice('n', 40)
    s = Stuck(n)
    try:
        write(s, b'abc')
        sent = True
    except (IOError, OSError):
        sent = False
    if sent:
        env.check(s.n == 0, 'not sent, and no error')
    env.check(s.calls < 30, 'tries without end')
    if n == 0:
        env.check(sent, 'sent')
    env.reach('end')


def write_all_(env):
    from durus.utils import write_all
    a, b = env.blob('a', 0, 300), env.blob('b', 0, 300)
    f = env.BytesIO()
    write_all(f, 'C', a, b)
    env.check(env.eq(f.getvalue(), env.cat(b'C', a, b)), 'message')
    sock = Sock(env, b'', 2)
    write_all(sock, 'C', a, b)
    env.check(env.eq(sock.sent, env.cat(b'C', a, b)), 'message')
    env.reach('end')
