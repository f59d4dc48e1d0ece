"""Arrays kept in a file, next to a plain sequence of bytes."""
from vf.env import WORLD

EXPECT = ['end']
SIMFS = False
BOUNDS = ('arrays that start anywhere in the first 100 bytes of a file; byte '
          'arrays of 0-20000 bytes, bit arrays of 0-100 bits (and any size up '
          'to 80000 for one access), word arrays of 1-3 and 8 byte words, '
          'integer arrays of any maximum; 2 arbitrary assignments (thorough '
          '3), one growth, and one look at any index, before and after '
          'reopening; complete iteration for up to 10 elements')
ASSUMPTIONS = ['the file is a BytesIO (symbolic side: vf.models.FlatIO)']


def cases(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for ops in ('ii', 'is', 'si', 'ss', 'gi', 'ig', 'gs', 'sg') if n == 2 \
            else ('iis', 'sig', 'gis', 'isi', 'sgs', 'ssi', 'gsg'):
        out.append(dict(name='bytes-' + ops, func='bytes_', weight=3,
                        params=dict(ops=ops)))
    out.append(dict(name='bytes-iter', func='bytes_iter', params={}))
    out.append(dict(name='bits', func='bits', params=dict(n=n)))
    out.append(dict(name='bits-grow', func='bits_grow', params={}))
    out.append(dict(name='bits-large', func='bits_large', params={}))
    out.append(dict(name='bits-iter', func='bits_iter', params={}))
    for w in (1, 2, 3, 8):
        out.append(dict(name='words-%d' % w, func='words',
                        params=dict(w=w, n=n)))
        out.append(dict(name='words-iter-%d' % w, func='words_iter',
                        params=dict(w=w)))
    for w in range(9):
        out.append(dict(name='ints-%d' % w, func='ints', weight=w,
                        params=dict(n=n, w=w)))
    out.append(dict(name='ints-iter', func='ints_iter', params={}))
    return out


def start(env):
    """A file with something in it. -> (file, its contents)"""
    WORLD.flatio = True
    before = env.blob('before', 0, 100)
    f = env.BytesIO()
    f.write(before)
    return f, before


def reopen(env, f, before):
    f.seek(env.blen(before))
    return f


def intact(env, f, before):
    f.seek(0)
    env.check(env.eq(f.read(env.blen(before)), before),
              'what comes before the array changed')


def refused(f, *errors):
    try:
        f()
    except errors:
        return True
    return False


class Model(object):
    """A plain file of bytes."""

    def __init__(self, env, content):
        self.f = env.BytesIO()
        self.f.write(content)

    def put(self, i, s):
        self.f.seek(i)
        self.f.write(s)

    def get(self, i, j):
        self.f.seek(i)
        return self.f.read(j - i)


def bytes_(env, ops):
    from durus.utils import ByteArray
    f, before = start(env)
    size = env.int('size', 0, 20000, small=20)
    a = ByteArray(size, f)
    m = Model(env, env.zeros(size))
    for op in ops:
        if op == 'i':
            i = env.int('i', -2, 20002)
            v = env.bytesn('v', 1)
            if env.all(i >= 0, i < size):
                a[i] = v
                m.put(i, v)
            else:
                def put():
                    a[i] = v
                env.check(refused(put, IndexError), 'index out of range')
            def put2():
                a[i] = env.cat(v, v)
            env.check(refused(put2, IndexError, ValueError),
                      'two bytes at one index')
        elif op == 's':
            j = env.int('j', -2, 20002)
            k = env.int('k', -2, 20003)
            s = env.blob('s', 0, 20010)

            def put():
                a[j:k] = s
            if env.all(j >= 0, j < k, k <= size):
                if env.blen(s) == k - j:
                    put()
                    m.put(j, s)
                else:
                    env.check(refused(put, ValueError), 'length of a slice')
            else:
                env.check(refused(put, IndexError, ValueError),
                          'slice out of range')
        else:
            more = env.int('more', 0, 20000)
            fill = env.bytesn('fill', 1) if env.choice(
                'filled', [False, True]) else None
            if fill is None:
                a.set_size(size + more)
                m.put(size, env.zeros(more))
            else:
                a.set_size(size + more, fill)
                m.put(size, env.repeat(fill, more))
            size = size + more
            if not env.symbolic or type(size) is int:
                env.check(len(a) == size, 'size')
            env.check(a.get_size() == size, 'size')
    look = env.choice('look', ['at', 'slice', 'before', 'again'])
    if look == 'before':
        intact(env, f, before)
    elif look == 'slice':
        x = env.int('x', -2, 20002)
        y = env.int('y', -2, 20003)
        if env.all(x >= 0, x < y, y <= size):
            env.check(env.eq(a[x:y], m.get(x, y)), 'value of a slice')
        else:
            env.check(refused(lambda: a[x:y], IndexError),
                      'slice out of range')
    else:
        if look == 'again':
            a = ByteArray(size, reopen(env, f, before))
        q = env.int('q', -2, 60002)
        if env.all(q >= 0, q < size):
            got = a[q]
            env.check(env.eq(got, m.get(q, q + 1)), 'value at an index')
            env.observe('at', got)
        else:
            env.check(refused(lambda: a[q], IndexError), 'index out of range')
    env.reach('end')


def bytes_iter(env):
    from durus.utils import ByteArray
    f, before = start(env)
    size = env.choice('size', 5)
    a = ByteArray(size, f)
    m = []
    for i in range(size):
        v = env.bytesn('v', 1)
        a[i] = v
        m.append(v)
    env.check(env.eq([x for x in a], m), 'iteration')
    env.check(refused(lambda: a[0:size:2], IndexError), 'steps are refused')
    env.check(len(a) == size, 'length')
    env.reach('end')


def bits(env, n):
    from durus.utils import BitArray
    f, before = start(env)
    size = env.int('size', 0, 100)
    a = BitArray(size, f)
    done = []
    for x in range(n):
        i = env.int('i', -102, 102)
        v = env.choice('as', [0, 1])
        where = size + i if i < 0 else i
        if env.all(where >= 0, where < size):
            a[i] = v
            done.append((where, v))
        else:
            def put():
                a[i] = v
            env.check(refused(put, IndexError), 'index out of range')
    look = env.choice('look', ['at', 'again', 'before'])
    if look == 'before':
        intact(env, f, before)
        env.stop()
    if look == 'again':
        a = BitArray(size, reopen(env, f, before))
    q = env.int('q', -102, 102)
    where = size + q if q < 0 else q
    if env.all(where >= 0, where < size):
        got = a[q]
        want = 0
        for i, v in done:
            want = env.ite(i == where, v, want)
        env.check(got == want, 'value at an index')
        env.observe('at', got)
    else:
        env.check(refused(lambda: a[q], IndexError), 'index out of range')
    env.check(a.get_size() == size, 'size')
    env.reach('end')


def bits_grow(env):
    from durus.utils import BitArray
    f, before = start(env)
    size = env.int('size', 0, 40)
    a = BitArray(size, f)
    i = env.int('i', 0, 39)
    env.assume(i < size)
    a[i] = 1
    more = env.int('more', 0, 40)
    a.set_size(size + more)
    q = env.int('q', 0, 100)
    if q < size + more:
        env.check(a[q] == env.ite(q == i, 1, 0), 'value after growing')
        a[q] = 0
        env.check(a[q] == 0, 'value after clearing')
        if q != i:
            env.check(a[i] == 1, 'value beside the one cleared')
    else:
        env.check(refused(lambda: a[q], IndexError), 'index out of range')
    intact(env, f, before)
    env.reach('end')


def bits_large(env):
    from durus.utils import BitArray
    f, before = start(env)
    size = env.int('size', 0, 80000)
    a = BitArray(size, f)
    i = env.int('i', 0, 79999)
    env.assume(i < size)
    a[i] = 1
    q = env.int('q', 0, 79999)
    env.assume(q < size)
    env.check(a[q] == env.ite(q == i, 1, 0), 'value at an index')
    env.reach('end')


def bits_iter(env):
    from durus.utils import BitArray
    size = env.choice('size', 12)
    a = BitArray(size, env.BytesIO())
    m = [0] * size
    for x in range(2):
        if size:
            i = env.concrete(env.int('i', 0, size - 1))
            a[i] = 1
            m[i] = 1
    env.check([x for x in a] == m, 'iteration')
    env.check(len(a) == size, 'length')
    env.check(str(a) == ''.join(map(str, m)), 'as a string')
    env.reach('end')


def words(env, w, n):
    from durus.utils import WordArray
    f, before = start(env)
    size = env.int('size', 0, 3000, small=20)
    a = WordArray(f, bytes_per_word=w, number_of_words=size)
    zero = b'\0' * w
    done = []
    for x in range(n):
        i = env.int('i', -3002, 3002)
        v = env.bytesn('v', w)
        where = size + i if i < 0 else i

        def put(v=v):
            a[i] = v
        if env.all(where >= 0, where < size):
            put()
            done.append((where, v))
            env.check(refused(lambda: put(env.cat(v, v)), ValueError),
                      'a word of another length')
        else:
            env.check(refused(put, IndexError), 'index out of range')
    look = env.choice('look', ['at', 'again', 'before'])
    if look == 'before':
        intact(env, f, before)
        env.stop()
    if look == 'again':
        a = WordArray(reopen(env, f, before))
    q = env.int('q', -3002, 3002)
    where = size + q if q < 0 else q
    if env.all(where >= 0, where < size):
        got = a[q]
        want = zero
        for i, v in done:
            if i == where:
                want = v
        env.check(env.eq(got, want), 'value at an index')
        env.observe('at', got)
    else:
        env.check(refused(lambda: a[q], IndexError), 'index out of range')
    env.check(a.get_bytes_per_word() == w, 'bytes per word')
    env.reach('end')


def words_iter(env, w):
    from durus.utils import WordArray
    f, before = start(env)
    size = env.choice('size', 4)
    a = WordArray(f, bytes_per_word=w, number_of_words=size)
    m = []
    for i in range(size):
        v = env.bytesn('v', w)
        a[i] = v
        m.append(v)
    env.check(env.eq([x for x in a], m), 'iteration')
    a = WordArray(reopen(env, f, before))
    env.check(env.eq([x for x in a], m), 'iteration after reopening')
    env.check(len(a) == size, 'length')
    env.reach('end')


TOP = 2 ** 64 - 1


def ints(env, n, w):
    from durus.utils import IntArray
    f, before = start(env)
    size = env.int('size', 0, 1000, small=20)
    if w:
        most = env.int('most', 256 ** (w - 1) - 1, 256 ** w - 2)
    else:
        most = None
    a = IntArray(f, number_of_ints=size, maximum_int=most)
    if most is None:
        most = TOP - 1
    done = []
    for x in range(n):
        i = env.int('i', -1002, 1002)
        v = env.int('v', 0, TOP)
        where = size + i if i < 0 else i

        def put():
            a[i] = v
        if env.all(where >= 0, where < size):
            if v <= most:
                put()
                done.append((where, v))
            else:
                # wider than the array is allowed to hold, or kept
                if not refused(put, ValueError):
                    env.check(a[i] == v, 'a value above the maximum')
                    done.append((where, None))
        else:
            env.check(refused(put, IndexError, ValueError),
                      'index out of range')
    look = env.choice('look', ['at', 'again', 'before'])
    if look == 'before':
        intact(env, f, before)
        env.stop()
    if look == 'again':
        a = IntArray(reopen(env, f, before))
    q = env.int('q', -1002, 1002)
    where = size + q if q < 0 else q
    if env.all(where >= 0, where < size):
        want = 'blank'
        for i, v in done:
            if i == where:
                want = v
        if want is None:
            env.stop()
        elif want == 'blank':
            env.check(a.get(q) is None, 'a value never assigned')
            env.check(a.get(q, 7) == 7, 'a value never assigned')
            env.check(a[q] == a.get_blank_value(), 'the blank value')
            env.check(a[q] > most, 'the blank value is no value')
        else:
            env.check(a[q] == want, 'value at an index')
            env.check(env.eq(a.get(q), want), 'value at an index')
            env.observe('at', a[q])
    else:
        env.check(refused(lambda: a[q], IndexError), 'index out of range')
        env.check(a.get(q) is None and a.get(q, 5) == 5,
                  'index out of range')
    env.reach('end')


def ints_iter(env):
    from durus.utils import IntArray
    f, before = start(env)
    size = env.choice('size', 4)
    most = env.int('most', 0, TOP - 2)
    a = IntArray(f, number_of_ints=size, maximum_int=most)
    m = []
    for i in range(size):
        if env.choice('set', [False, True]):
            v = env.int('v', 0, TOP - 2)
            env.assume(v <= most)
            a[i] = v
            m.append(v)
        else:
            m.append(None)
    want = [(i, v) for i, v in enumerate(m) if v is not None]
    got = list(a.items())
    env.check(env.eq([list(x) for x in got], [list(x) for x in want]),
              'items')
    blank = a.get_blank_value()
    env.check(env.eq(list(a), [blank if v is None else v for v in m]),
              'iteration')
    env.check(len(a) == size, 'length')
    env.reach('end')
