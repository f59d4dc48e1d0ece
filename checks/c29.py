"""The index of positions that a pack writes."""
from vf.env import WORLD

EXPECT = ['end']
SIMFS = False
BOUNDS = ('indexes for a highest identifier of -2 to 4 (thorough 7) with every '
          'set of used slots, and of up to 3000 with two used slots; written '
          'at any place in a file of up to 2**56 bytes; all positions below '
          'it; data of any kind after the index')
ASSUMPTIONS = ['the file is a BytesIO (symbolic side: vf.models.FlatIO) '
               'shifted by an arbitrary offset', 'positions are below the '
               'start of the index and not repeated, as in a shelf file']


class Far(object):
    """A file with a hole in front."""

    def __init__(self, f, base):
        self.f = f
        self.base = base

    def seek(self, n, whence=0):
        if whence:
            return self.f.seek(n, whence)
        return self.f.seek(n - self.base)

    def tell(self):
        return self.f.tell() + self.base

    def read(self, *a):
        return self.f.read(*a)

    def write(self, s):
        return self.f.write(s)


def cases(tier):
    out = []
    for m in range(-2, 5 if tier == 'quick' else 8):
        for w in range(1, 8):
            if m + 2 < 256 ** (w - 1) or w <= 2 or tier != 'quick' or m < 3:
                out.append(dict(name='full%d-w%d' % (m, w), func='full',
                                weight=m + 3, params=dict(m=m, w=w)))
    for w in range(1, 8):
        out.append(dict(name='large-w%d' % w, func='large', weight=2,
                        params=dict(w=w)))
    return out


def start(env, w, m):
    """A file, positioned where the index starts, so that an entry takes w
    bytes."""
    WORLD.flatio = True
    base = env.int('base', 0, 256 ** w)
    env.assume(base + m + 3 >= 256 ** (w - 1))
    env.assume(base + m + 3 < 256 ** w)
    f = Far(env.BytesIO(), base)
    return f, base


def full(env, m, w):
    from durus.shelf import OffsetMap
    f, base = start(env, w, m)
    env.assume(base > 0)
    a = OffsetMap(f, m, base - 1)
    n = m + 2
    used = {}
    for j in range(m + 1):
        if env.choice('used', [False, True]):
            p = env.int('p', 0, 256 ** w)
            env.assume(p < base)
            a[j] = p
            used[j] = p
    for x in a.gen_stitch():
        pass
    again = env.choice('again', 3)
    if again:
        if again == 2:
            f.seek(0, 2)
            f.write(env.blob('after', 0, 40))
        f.seek(base)
        a = OffsetMap(f)
    look(env, a, n, used, base)
    holes = list(a.gen_holes())
    env.check(env.eq(sorted(env.concrete(x) for x in holes),
                     [j for j in range(n) if j not in used]), 'holes')
    env.check(env.eq(list(a), sorted(used)), 'used slots')
    env.check(env.eq([list(x) for x in a.items()],
                     [[j, used[j]] for j in sorted(used)]), 'positions')
    env.observe('holes', holes)
    env.check(a.get_start() == base, 'start')
    env.check(a.get_array_size() == n, 'size')
    env.reach('end')


def look(env, a, n, used, base):
    q = env.choice('q', n + 2)
    if q < n:
        env.check(env.eq(a.get(q), used.get(q)), 'position')
    else:
        q = env.int('far', n, 2 ** 64 - 1)
        env.check(a.get(q) is None, 'position above the index')
        env.check(a.get(q, 5) == 5, 'position above the index')
    if q in used if isinstance(q, int) else False:
        env.check(env.eq(a[q], used[q]), 'position')
    else:
        try:
            a[q]
            env.check(False, 'no error for an unused slot')
        except IndexError:
            pass


def large(env, w):
    from durus.shelf import OffsetMap
    m = env.int('m', 0, 3000, small=10)
    f, base = start(env, w, m)
    env.assume(base > 0)
    a = OffsetMap(f, m, base - 1)
    done = []
    for x in range(2):
        j = env.int('j', 0, 3000)
        p = env.int('p', 0, 256 ** w)
        env.assume(j <= m)
        env.assume(p < base)
        if x == 1:
            env.assume(j != done[0][0])
        a[j] = p
        done.append((j, p))
    if env.choice('again', [False, True]):
        f.seek(0, 2)
        f.write(env.blob('after', 0, 40))
        f.seek(base)
        a = OffsetMap(f)
    q = env.int('q', 0, 2 ** 64 - 1)
    got = a.get(q)
    want = None
    for j, p in done:
        if q == j:
            want = p
    env.check(env.eq(got, want), 'position')
    env.observe('got', got)
    env.reach('end')
