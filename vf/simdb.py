"""sqlite3 for the harnesses.

symbolic mode: a small interpreter for the statements a key/value table needs
(select / insert or replace / delete with `column = ?`, max, count, order by),
with sqlite's transaction rules (implicit begin, commit, rollback on close).
concrete mode: the real sqlite3, on files in a scratch directory."""
import os
import re
import shutil
import sqlite3
import tempfile
from vf.env import WORLD


class Databases(object):
    """All databases of one path, by file name."""

    def __init__(self, env):
        self.env = env
        self.files = {}
        self.dir = None
        if not env.symbolic:
            self.dir = tempfile.mkdtemp(prefix='vfdb')
            env.on_exit(lambda: shutil.rmtree(self.dir))
        self.open = []
        env.on_exit(self.close_all)

    def close_all(self):
        for c in self.open:
            try:
                c.close()
            except Exception:
                pass

    def real(self, name):
        return os.path.join(self.dir, name.replace('/', '_'))

    def exists(self, name):
        if self.dir is not None:
            return os.path.exists(self.real(name))
        return name in self.files

    def connect(self, name, *a, **k):
        if self.dir is not None:
            c = sqlite3.connect(self.real(name), *a, **k)
        else:
            c = Conn(self, self.files.setdefault(name, {}))
        self.open.append(c)
        return c


class Table(object):
    def __init__(self, cols, pk):
        self.cols = cols
        self.pk = pk
        self.rows = []          # [dict]

    def copy(self):
        t = Table(self.cols, self.pk)
        t.rows = [dict(r) for r in self.rows]
        return t


class Conn(object):

    def __init__(self, dbs, committed):
        self.dbs = dbs
        self.env = dbs.env
        self.committed = committed
        self.work = None
        self.text_factory = str
        self.closed = False
        self.isolation_level = ''

    def tables(self):
        return self.committed if self.work is None else self.work

    def begin(self):
        if self.work is None:
            self.work = dict((k, t.copy()) for k, t in self.committed.items())

    def commit(self):
        self._open()
        if self.work is not None:
            self.committed.clear()
            self.committed.update(self.work)
            self.work = None

    def rollback(self):
        self.work = None

    def _open(self):
        if self.closed:
            raise sqlite3.ProgrammingError('Cannot operate on a closed '
                                           'database.')

    def close(self):
        self.work = None
        self.closed = True

    def cursor(self):
        self._open()
        return Cursor(self)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()


def tokens(sql):
    return re.findall(r"[A-Za-z_][A-Za-z_0-9]*|\d+|[(),?=*;<>]", sql)


class Cursor(object):

    def __init__(self, conn):
        self.conn = conn
        self.result = []
        self.rowcount = -1

    # statements
    def executescript(self, sql):
        self.conn._open()
        self.conn.commit()
        for stmt in sql.split(';'):
            t = [x.upper() for x in tokens(stmt)]
            if not t:
                continue
            if t[0] in ('BEGIN',):
                self.conn.begin()
            elif t[0] in ('COMMIT', 'END'):
                self.conn.commit()
            elif t[0] == 'PRAGMA':
                pass
            else:
                self._run(stmt, (), implicit=False)
        return self

    def execute(self, sql, args=()):
        self.conn._open()
        self._run(sql, args)
        return self

    def executemany(self, sql, seq):
        self.conn._open()
        for args in seq:
            self._run(sql, args)
        return self

    def fetchone(self):
        if self.result:
            return self.result.pop(0)
        return None

    def fetchall(self):
        r, self.result = self.result, []
        return r

    def fetchmany(self, n=1):
        r, self.result = self.result[:n], self.result[n:]
        return r

    def __iter__(self):
        while self.result:
            yield self.result.pop(0)

    def close(self):
        pass

    def _bind(self, v):
        from vf import sym
        if sym.is_sym(v) and type(v) is sym.SymInt:
            if v > 2 ** 63 - 1 or v < -2 ** 63:
                raise OverflowError('Python int too large to convert to '
                                    'SQLite INTEGER')
        elif isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError('Python int too large to convert to '
                                'SQLite INTEGER')
        elif isinstance(v, memoryview):
            v = bytes(v)
        return v

    def _run(self, sql, args, implicit=True):
        from vf.engine import Unsupported
        from vf import sym
        t = [x.upper() for x in tokens(sql)]
        if ';' in t:
            t = t[:t.index(';')]
        args = list(args)

        def bad():
            if t[:2] == ['SELECT', '('] or ('(' in t and t[0] == 'SELECT' and
                                            t[1] == '('):
                raise sqlite3.OperationalError('row value misused')
            raise Unsupported('sql: %r' % sql)

        def table(name):
            tabs = self.conn.tables()
            if name not in tabs:
                raise sqlite3.OperationalError('no such table: %s' % name)
            return tabs[name]

        def where(toks, tab):
            """rows matching; toks after WHERE"""
            conds = []
            while toks:
                if len(toks) >= 3 and toks[1] in ('=', '<', '>') and \
                        toks[2] == '?':
                    conds.append((toks[0], toks[1], self._bind(args.pop(0))))
                    toks = toks[3:]
                elif len(toks) > 3 and toks[1] == 'IN' and toks[2] == '(':
                    vals = []
                    toks2 = toks[3:]
                    while toks2 and toks2[0] != ')':
                        if toks2[0] == '?':
                            vals.append(self._bind(args.pop(0)))
                        elif toks2[0] != ',':
                            bad()
                        toks2 = toks2[1:]
                    conds.append((toks[0], 'IN', vals))
                    toks = toks2[1:]
                else:
                    bad()
                if toks and toks[0] == 'AND':
                    toks = toks[1:]
                elif toks:
                    bad()
            out = []
            for r in tab.rows:
                ok = True
                for c, op, v in conds:
                    if c not in r:
                        raise sqlite3.OperationalError('no such column')
                    if op == '=':
                        ok = sym.eq(r[c], v)
                    elif op == 'IN':
                        ok = any(bool(sym.eq(r[c], x)) for x in vals)
                    elif op == '<':
                        ok = r[c] < v
                    else:
                        ok = r[c] > v
                    if not ok:
                        break
                if ok:
                    out.append(r)
            return out

        if t[:2] == ['CREATE', 'TABLE']:
            if t[2:5] == ['IF', 'NOT', 'EXISTS']:
                name, rest = t[5], t[6:]
                if name in self.conn.tables():
                    return
            else:
                name, rest = t[2], t[3:]
            if name in self.conn.tables():
                raise sqlite3.OperationalError('table already exists')
            cols, pk, first = [], None, True
            for i, x in enumerate(rest[1:], 1):
                if first:
                    cols.append(x)
                    first = False
                if x == 'PRIMARY':
                    pk = cols[-1]
                if x == ',':
                    first = True
            self.conn.tables()[name] = Table(cols, pk)
        elif t[0] == 'SELECT':
            if 'FROM' not in t:
                bad()
            f = t.index('FROM')
            cols = t[1:f]
            tab = table(t[f + 1])
            rest = t[f + 2:]
            order = None
            if 'ORDER' in rest:
                o = rest.index('ORDER')
                order = rest[o + 2]
                if rest[o + 3:] not in ([], ['ASC'], ['DESC']):
                    bad()
                desc = rest[o + 3:] == ['DESC']
                rest = rest[:o]
            if rest and rest[0] == 'WHERE':
                rows = where(rest[1:], tab)
            elif rest:
                bad()
            else:
                rows = list(tab.rows)
            if cols[0] in ('MAX', 'MIN', 'COUNT') and len(cols) == 4:
                if cols[0] == 'COUNT':
                    self.result = [(len(rows),)]
                else:
                    vals = [r[cols[2]] for r in rows]
                    best = None
                    for v in vals:
                        if best is None or (v > best if cols[0] == 'MAX'
                                            else v < best):
                            best = v
                    self.result = [(best,)]
                return
            names = [c for c in cols if c != ',']
            if names == ['*']:
                names = tab.cols
            for n in names:
                if n not in tab.cols and not n.isdigit():
                    bad()
            if order is not None or tab.pk is not None:
                key = order or tab.pk
                rows.sort(key=lambda r: r[key])
                if order is not None and desc:
                    rows.reverse()
            self.result = [tuple(int(n) if n.isdigit() else r[n]
                                 for n in names) for r in rows]
        elif t[0] in ('INSERT', 'REPLACE'):
            if implicit:
                self.conn.begin()
            i = t.index('INTO')
            replace = t[0] == 'REPLACE' or t[1:3] == ['OR', 'REPLACE']
            ignore = t[1:3] == ['OR', 'IGNORE']
            tab = table(t[i + 1])
            rest = t[i + 2:]
            if rest[0] == '(':
                c = rest.index(')')
                cols = [x for x in rest[1:c] if x != ',']
                rest = rest[c + 1:]
            else:
                cols = tab.cols
            if rest[0] != 'VALUES' or [x for x in rest[2:-1] if x != ','] != [
                    '?'] * len(cols):
                bad()
            if len(args) != len(cols):
                raise sqlite3.ProgrammingError('Incorrect number of bindings')
            row = dict((c, None) for c in tab.cols)
            row.update(zip(cols, [self._bind(a) for a in args]))
            for r in list(tab.rows):
                if tab.pk and sym.eq(r[tab.pk], row[tab.pk]):
                    if ignore:
                        return
                    if not replace:
                        raise sqlite3.IntegrityError('UNIQUE constraint')
                    tab.rows = [x for x in tab.rows if x is not r]
                    break
            tab.rows.append(row)
        elif t[:2] == ['DELETE', 'FROM']:
            if implicit:
                self.conn.begin()
            tab = table(t[2])
            rest = t[3:]
            if not rest:
                rows = list(tab.rows)
            elif rest[0] == 'WHERE':
                rows = where(rest[1:], tab)
            else:
                bad()
            tab.rows = [r for r in tab.rows if not any(r is x for x in rows)]
            self.rowcount = len(rows)
        elif t[0] == 'PRAGMA':
            pass
        elif t[0] == 'BEGIN':
            self.conn.begin()
        elif t[0] == 'COMMIT':
            self.conn.commit()
        elif t[0] == 'ROLLBACK':
            self.conn.rollback()
        else:
            bad()
