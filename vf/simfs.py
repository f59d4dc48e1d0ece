"""An in-memory file system with a write history, so that a crash is an index
into that history.  Works on bytes and on ropes (through env).

Modelled: user-space write buffering (lost in a crash until flushed), flock per
open file description, rename/unlink with open handles, EOF reads, holes.
"""
import errno
import os as _os
import posixpath
from vf.env import WORLD, Unmodelled


class Inode(object):
    count = 0

    def __init__(self, ident, data=b''):
        self.ident = ident
        self.data = data
        self.holder = None


class SimFS(object):

    def __init__(self, env):
        self.env = env
        self.paths = {}
        self.log = []
        self.base = {}
        self.handles = []
        self.nextid = 1
        self.fault = None       # callable(op tuple) -> None, may raise
        self.tempcount = 0
        self.synced = {}        # ident -> log length at its last fsync
        self.blocked_writes = None

    # -- history
    def checkpoint(self):
        """Everything so far is on disk; a crash can only undo what follows."""
        self.base = dict((p, (i.ident, i.data))
                         for p, i in self.paths.items())
        self.log = []
        self.synced = {}

    def op(self, *op):
        if self.fault is not None:
            self.fault(op)
        self.log.append(op)

    def crashed(self, k, torn=None):
        """A file system holding the first k operations of the history and,
        if `torn` is given, the first `torn` bytes of a write that follows."""
        env = self.env
        paths = dict((p, [i, d]) for p, (i, d) in self.base.items())
        inodes = dict((v[0], v) for v in paths.values())

        def apply(op):
            kind = op[0]
            if kind == 'create':
                v = [op[2], b'']
                paths[op[1]] = v
                inodes[op[2]] = v
            elif kind == 'write':
                v = inodes.get(op[1])
                if v is not None:
                    v[1] = env.overwrite(v[1], op[2], op[3])
            elif kind == 'truncate':
                v = inodes.get(op[1])
                if v is not None:
                    v[1] = set_length(env, v[1], op[2])
            elif kind == 'rename':
                paths[op[2]] = paths.pop(op[1])
            elif kind == 'unlink':
                paths.pop(op[1], None)
        for op in self.log[:k]:
            apply(op)
        if torn is not None:
            op = self.log[k]
            assert op[0] == 'write'
            apply(('write', op[1], op[2], env.cut(op[3], 0, torn)))
        fs = SimFS(env)
        fs.nextid = self.nextid
        for p, (ident, data) in paths.items():
            fs.paths[p] = Inode(ident, data)
        fs.checkpoint()
        return fs

    # -- names
    def norm(self, path):
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if isinstance(path, bytes):
            path = path.decode()
        return posixpath.normpath(posixpath.join('/sim', path))

    def exists(self, path):
        p = self.norm(path)
        return p in self.paths or p in ('/sim', '/')

    def inode(self, path):
        p = self.norm(path)
        if p not in self.paths:
            raise FileNotFoundError(errno.ENOENT, 'No such file', path)
        return self.paths[p]

    def create(self, path):
        p = self.norm(path)
        i = Inode(self.nextid)
        self.nextid += 1
        self.op('create', p, i.ident)
        self.paths[p] = i
        return i

    def open(self, name, mode='r', *a, **k):
        if 'b' not in mode:
            raise Unmodelled('text mode')
        m = mode.replace('b', '')
        p = self.norm(name)
        if m in ('r', 'r+'):
            inode = self.inode(name)
        elif m in ('w', 'w+'):
            if p in self.paths:
                inode = self.paths[p]
                if inode.data != b'':
                    self.op('truncate', inode.ident, 0)
                    inode.data = b''
            else:
                inode = self.create(name)
        elif m in ('a', 'a+'):
            inode = self.paths.get(p) or self.create(name)
        elif m in ('x', 'x+'):
            if p in self.paths:
                raise FileExistsError(errno.EEXIST, 'File exists', name)
            inode = self.create(name)
        else:
            raise ValueError('invalid mode: %r' % mode)
        f = SimFile(self, inode, name, mode, 'r' not in m or '+' in m,
                    '+' in m or 'r' in m, 'a' in m)
        return f

    def temp(self, **kw):
        self.tempcount += 1
        name = '/sim/tmp%d%s' % (self.tempcount, kw.get('suffix') or '')
        inode = self.create(name)
        return SimTemp(self, inode, name, 'rb+', True, True, False)

    def rename(self, a, b, *args, **k):
        pa, pb = self.norm(a), self.norm(b)
        self.inode(a)
        self.op('rename', pa, pb)
        if pa != pb:
            self.paths[pb] = self.paths.pop(pa)

    def unlink(self, p, *a, **k):
        self.inode(p)
        self.op('unlink', self.norm(p))
        del self.paths[self.norm(p)]

    def fsync(self, f):
        if not isinstance(f, SimFile):
            if hasattr(f, 'fileno'):
                f = f.fileno()
        if isinstance(f, SimFile):
            if f.closed:
                raise ValueError('I/O operation on closed file')
            self.op('sync', f.inode.ident)
            self.synced[f.inode.ident] = len(self.log)

    def stat(self, p, *a, **k):
        if isinstance(p, SimFile):
            return Stat(self.env.blen(p.inode.data), p.inode.ident)
        i = self.inode(p)
        return Stat(self.env.blen(i.data), i.ident)

    def flock(self, f, op):
        import fcntl
        if not isinstance(f, SimFile) and hasattr(f, 'fileno'):
            f = f.fileno()
        if op & fcntl.LOCK_UN:
            if f.inode.holder is f:
                f.inode.holder = None
            return
        h = f.inode.holder
        if h is not None and h is not f:
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, 'Resource unavailable')
            raise Unmodelled('blocking flock that would wait')
        f.inode.holder = f

    def unsynced(self, path):
        """Operations on this path's data that no fsync has covered."""
        i = self.inode(path)
        done = self.synced.get(i.ident, 0)
        return [op for op in self.log[done:]
                if op[0] in ('write', 'truncate') and op[1] == i.ident]


def set_length(env, data, n):
    cur = env.blen(data)
    if n < cur:
        return env.cut(data, 0, n)
    if n > cur:
        return env.cat(data, env.zeros(n - cur))
    return data


class Stat(object):
    def __init__(self, size, ident):
        self.st_size = size
        self.st_ino = ident
        self.st_dev = 1
        self.st_mode = 0o100644
        self.st_uid = 0
        self.st_gid = 0
        self.st_mtime = 0


class SimFile(object):

    def __init__(self, fs, inode, name, mode, writable, readable, append):
        self.fs = fs
        self.inode = inode
        self.name = name
        self.mode = mode if mode != 'w+b' and mode != 'r+b' else 'rb+'
        self._w = writable
        self._r = readable
        self._a = append
        self.pos = 0
        self.closed = False
        self.buf = []
        fs.handles.append(self)

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        self._open()
        return self

    def __index__(self):
        raise Unmodelled('file descriptor used as a number')

    def isatty(self):
        return False

    def read(self, n=-1):
        self._open()
        if not self._r:
            raise OSError('not readable')
        self.flush()
        env = self.fs.env
        if n is None or n < 0:
            r = env.cut(self.inode.data, self.pos, None)
        else:
            r = env.cut(self.inode.data, self.pos, self.pos + n)
        self.pos = self.pos + env.blen(r)
        return r

    def readline(self):
        out = []
        while True:
            c = self.read(1)
            if not bool(self.fs.env.blen(c) > 0):
                break
            out.append(c)
            if bool(self.fs.env.eq(c, b'\n')):
                break
        return self.fs.env.cat(b'', *out)

    def write(self, s):
        self._open()
        if not self._w:
            import io
            raise io.UnsupportedOperation('write')
        env = self.fs.env
        n = env.blen(s)
        if isinstance(s, (bytearray, memoryview)):
            s = bytes(s)
        if self._a:
            self.flush()
            self.pos = env.blen(self.inode.data)
        self.buf.append((self.pos, s))
        self.pos = self.pos + n
        return n

    def flush(self):
        self._open()
        env = self.fs.env
        while self.buf:
            pos, s = self.buf[0]
            if not (isinstance(s, bytes) and not s):
                try:
                    self.fs.op('write', self.inode.ident, pos, s)
                except Torn as e:
                    # a short write, then the error: the rest stays buffered
                    part = env.cut(s, 0, e.k)
                    self.fs.log.append(
                        ('write', self.inode.ident, pos, part))
                    self.inode.data = env.overwrite(
                        self.inode.data, pos, part)
                    self.buf[0] = (pos + e.k, env.cut(s, e.k, None))
                    raise OSError(errno.ENOSPC, 'No space left on device')
                self.inode.data = env.overwrite(self.inode.data, pos, s)
            del self.buf[0]

    def seek(self, n, whence=0):
        self._open()
        self.flush()
        if whence == 0:
            if n < 0:
                raise ValueError('negative seek value')
            if n >= 2 ** 63:
                raise OverflowError("cannot fit 'int' into an offset-sized "
                                    "integer")
            self.pos = n
        elif whence == 1:
            self.pos = self.pos + n
        else:
            self.pos = self.fs.env.blen(self.inode.data) + n
        return self.pos

    def tell(self):
        self._open()
        return self.pos

    def truncate(self, size=None):
        self._open()
        if not self._w:
            import io
            raise io.UnsupportedOperation('truncate')
        self.flush()
        if size is None:
            size = self.pos
        self.fs.op('truncate', self.inode.ident, size)
        self.inode.data = set_length(self.fs.env, self.inode.data, size)
        return size

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                self.closed = True
                if self.inode.holder is self:
                    self.inode.holder = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return '<SimFile %s>' % self.name


class SimTemp(SimFile):
    """NamedTemporaryFile: the name goes away on close."""

    def close(self):
        if not self.closed:
            SimFile.close(self)
            p = self.fs.norm(self.name)
            if self.fs.paths.get(p) is self.inode:
                del self.fs.paths[p]


class Torn(Exception):
    """Raised by a fault hook: the write stores its first k bytes and fails."""

    def __init__(self, k):
        self.k = k


# ------------------------------------------------ the modules durus imports

def fakes():
    import types
    from vf.loader import _Fake

    def forbid(name):
        def f(*a, **k):
            raise Unmodelled(name)
        return f

    def exists(p):
        return ((WORLD.fs is not None and WORLD.fs.exists(p)) or
                (WORLD.db is not None and WORLD.db.exists(p)))

    def isfile(p):
        return exists(p) and WORLD.fs.norm(p) not in ('/', '/sim')
    ospath = _Fake('os.path', posixpath, {
        'exists': exists,
        'lexists': exists,
        'isfile': isfile,
        'isdir': lambda p: WORLD.fs.norm(p) in ('/sim', '/'),
        'getsize': lambda p: WORLD.fs.stat(p).st_size,
        'samefile': lambda a, b: WORLD.fs.inode(a) is WORLD.fs.inode(b),
        'realpath': lambda p, **k: WORLD.fs.norm(p),
        'abspath': lambda p: WORLD.fs.norm(p),
    })

    class Dir(object):
        closed = False

    def os_open(p, flags, *a, **k):
        if WORLD.fs.norm(p) in WORLD.fs.paths:
            raise Unmodelled('os.open of a file')
        return Dir()
    names = {
        'path': ospath,
        'stat': lambda p, *a, **k: WORLD.fs.stat(p),
        'fstat': lambda f: WORLD.fs.stat(f),
        'lstat': lambda p, *a, **k: WORLD.fs.stat(p),
        'unlink': lambda p, *a, **k: WORLD.fs.unlink(p),
        'remove': lambda p, *a, **k: WORLD.fs.unlink(p),
        'rename': lambda a, b, **k: WORLD.fs.rename(a, b),
        'replace': lambda a, b, **k: WORLD.fs.rename(a, b),
        'link': forbid('os.link'),
        'fsync': lambda f: WORLD.fs.fsync(f),
        'fdatasync': lambda f: WORLD.fs.fsync(f),
        'ftruncate': lambda f, n: f.truncate(n),
        'truncate': forbid('os.truncate'),
        'open': os_open,
        'close': lambda f: None,
        'write': forbid('os.write'),
        'chown': lambda *a, **k: None,
        'chmod': lambda *a, **k: None,
        'umask': lambda *a: 0o22,
        'getpid': lambda: 1,
    }
    for n in ('system', 'kill', 'fork', 'makedirs', 'mkdir', 'rmdir',
              'removedirs', 'symlink', 'execv', 'mknod'):
        names[n] = forbid('os.' + n)
    os_fake = _Fake('os', _os, names)
    import fcntl
    import tempfile
    fc = _Fake('fcntl', fcntl, {
        'flock': lambda f, op: WORLD.fs.flock(f, op),
        'lockf': lambda f, op, *a: WORLD.fs.flock(f, op)})
    tf = _Fake('tempfile', tempfile, {
        'NamedTemporaryFile': lambda *a, **k: WORLD.fs.temp(**k),
        'TemporaryFile': lambda *a, **k: WORLD.fs.temp(**k),
        '_TemporaryFileWrapper': SimTemp})
    import sqlite3
    db = _Fake('sqlite3', sqlite3, {
        'connect': lambda *a, **k: WORLD.db.connect(*a, **k)})
    return {'os': os_fake, 'os.path': ospath, 'fcntl': fc, 'tempfile': tf,
            'sqlite3': db}


def sim_open(name, mode='r', *a, **k):
    return WORLD.fs.open(name, mode, *a, **k)
