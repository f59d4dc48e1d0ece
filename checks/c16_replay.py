"""Runs a counterexample of the C harness on the compiled extension.

replay.py EXTENSION JSON -> exit status 1 and a line for each failure.
"""
import gc
import importlib.machinery
import importlib.util
import json
import sys
import weakref

LOAD, CHANGE, ACCESS, GET, SET = range(1, 6)
failures = []


def check(ok, what):
    if not ok:
        failures.append(what)


def load(path):
    loader = importlib.machinery.ExtensionFileLoader('_persistent', path)
    spec = importlib.util.spec_from_loader('_persistent', loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


class Failed(Exception):
    pass


class Result(object):
    pass


def triggers(name):
    return not name.startswith('_p_') and name not in (
        '__repr__', '__class__', '__setstate__')


class World(object):

    def __init__(self, m, inp):
        self.log = log = []
        self.result = result = Result()
        fails = self.fails = set()

        def call(kind):
            log.append(kind)
            if kind in fails:
                raise Failed(kind)
            return result

        class P(m.PersistentBase):
            def _p_load_state(self):
                r = call(LOAD)
                m._setattribute(self, '_p_status', 0)
                return r

            def _p_note_change(self):
                r = call(CHANGE)
                m._setattribute(self, '_p_status', 1)
                return r

        class C(m.ConnectionBase):
            def note_access(self, obj):
                log.append(obj is world.p)
                return call(ACCESS)
        world = self
        self.m, self.P, self.C = m, P, C
        self.inp = inp
        self.make()

    def make(self):
        m, inp = self.m, self.inp
        self.p = self.P()
        self.c = self.C()
        self.c.transaction_serial = 10 ** 6
        m._setattribute(self.p, '_p_status', inp.get('status', 1))
        if inp.get('connected'):
            m._setattribute(self.p, '_p_connection', self.c)
        m._setattribute(self.p, '_p_serial', self.c.transaction_serial
                        if inp.get('current') else 10 ** 6 + 1)
        m._setattribute(self.p, '_p_oid', b'12345678')
        self.log.clear()

    def name(self):
        inp = self.inp
        if inp.get('kind') == 2:
            return 5
        if inp.get('kind') == 1:
            return '\ud800x'
        return bytes(inp.get('name', [])).decode('utf8')


def attribute(m, inp, setting):
    w = World(m, inp)
    name = w.name()
    bad = {LOAD, CHANGE, ACCESS} & set(inp.get('failing', []))
    w.fails.update(bad)
    refs = sys.getrefcount(w.result)
    for n in range(20):
        w.make()
        m._setattribute(w.p, name, 'v') if isinstance(name, str) and \
            '\ud800' not in name else None
        value = Result()
        vrefs = sys.getrefcount(value)
        prefs = sys.getrefcount(w.p)
        crefs = sys.getrefcount(w.c)
        error = got = None
        try:
            if setting:
                if inp.get('delete'):
                    delattr(w.p, name)
                else:
                    setattr(w.p, name, value)
            else:
                got = getattr(w.p, name)
        except BaseException as e:
            error = e
        kinds = [k for k in w.log if k is not True]
        if isinstance(name, str) and '\ud800' not in name:
            expect, failed = [], None
            if triggers(name):
                if setting:
                    if w.inp.get('status') != 1:
                        expect.append(CHANGE)
                    elif kinds[:1] == [CHANGE]:
                        kinds = kinds[1:]
                else:
                    if w.inp.get('status') == -1:
                        expect.append(LOAD)
                    if w.inp.get('connected') and not w.inp.get('current'):
                        expect.append(ACCESS)
            for i, k in enumerate(expect):
                if k in bad:
                    expect, failed = expect[:i + 1], k
                    break
            check(kinds == expect, 'called %r, not %r' % (kinds, expect))
            if failed is None:
                if name != '__class__' and not name.startswith('_p_'):
                    check(error is None, 'error %r' % error)
                    if setting and not inp.get('delete'):
                        check(m._getattribute(w.p, name) is value, 'not set')
                    elif not setting and name not in (
                            '__repr__', '__setstate__'):
                        check(got == 'v', 'value %r' % (got,))
            else:
                check(isinstance(error, Failed), 'error is %r' % error)
                if setting:
                    check(m._getattribute(w.p, name) == 'v', 'set anyway')
        elif name == 5:
            check(isinstance(error, TypeError), 'error is %r' % error)
        else:
            check(error is not None or setting, 'no error')
        del error, got
        check(sys.getrefcount(w.p) == prefs and sys.getrefcount(w.c) == crefs,
              'references')
        if setting:
            m._setattribute(w.p, '__dict__', {})
            check(sys.getrefcount(value) == vrefs, 'references to the value')
    check(abs(sys.getrefcount(w.result) - refs) < 10,
          'references to results')


def lifetime(m, inp):
    for t, serial in ((m.PersistentBase, '_p_serial'),
                      (m.ConnectionBase, 'transaction_serial')):
        class S(t):
            pass
        o = S()
        if t is m.PersistentBase:
            get = lambda n: m._getattribute(o, n)
            check(get('_p_status') == 1 and get('_p_serial') == 0 and
                  get('_p_connection') is None and get('_p_oid') is None,
                  'a new object')
            names = ['_p_serial', '_p_connection', '_p_oid']
        else:
            check(o.transaction_serial == 1, 'a new connection')
            names = ['transaction_serial']
        values = [Result() for n in names]
        counts = [sys.getrefcount(v) for v in values]
        for i in range(20):
            for cls in (S, t):
                o = cls()
                for n, v in zip(names, values):
                    m._setattribute(o, n, v)
                there = gc.get_referents(o)
                for v in values:
                    check(sum(v is x for x in there) == 1, 'visits')
                check(gc.is_tracked(o), 'not tracked')
                del o, there
        v = n = None
        check(counts == [sys.getrefcount(v) for v in values],
              'references after death')
        for n in names:
            gc.disable()
            o = S()
            v = Result()
            v.back = o
            m._setattribute(o, n, v)
            alive = weakref.ref(v)
            del o, v
            gc.collect()
            if n != '_p_serial' or t is m.ConnectionBase:
                check(alive() is None, 'a cycle through %s is kept' % n)
            gc.enable()


def nomemory(m, inp):
    try:
        import _testcapi
    except ImportError:
        return
    for t in (m.PersistentBase, m.ConnectionBase):
        for i in range(6):
            _testcapi.set_nomemory(i, i + 1)
            try:
                t()
            except MemoryError:
                pass
            finally:
                _testcapi.remove_mem_hooks()


def functions(m, inp):
    class P(m.PersistentBase):
        def _p_load_state(self):
            failures.append('state was loaded')

        def _p_note_change(self):
            failures.append('a change was noted')
    p = P()
    m._setattribute(p, '_p_status', -1)
    v = Result()
    n = sys.getrefcount(v)
    for i in range(20):
        m._setattribute(p, 'a', v)
        check(m._getattribute(p, 'a') is v, '_getattribute')
        check(m._hasattribute(p, 'a') is True, '_hasattribute')
        m._delattribute(p, 'a')
        check(m._hasattribute(p, 'a') is False, '_hasattribute')
        for f, args in ((m._getattribute, (p, 'a')),
                        (m._delattribute, (p, 'a'))):
            try:
                f(*args)
            except AttributeError:
                pass
            else:
                check(False, 'no error')
        for f, k in ((m._getattribute, 2), (m._delattribute, 2),
                     (m._setattribute, 3), (m.call_if_persistent, 2)):
            for j in range(4):
                if j != k:
                    try:
                        f(*(p, 'a', v)[:j])
                    except TypeError:
                        pass
                    else:
                        check(False, 'wrong arguments')
    check(sys.getrefcount(v) == n, 'references')

    class Odd(object):
        @property
        def __class__(self):
            raise Failed('class')
    calls = []
    r = Result()

    def f(x):
        calls.append(x)
        return r
    n = sys.getrefcount(r)
    for i in range(20):
        check(m.call_if_persistent(f, p) is r and calls == [p], 'call')
        check(m.call_if_persistent(f, 5) is None and calls == [p], 'no call')
        try:
            m.call_if_persistent(f, Odd())
        except Failed:
            pass
        except BaseException as e:
            check(False, 'error is %r' % e)
        else:
            check(False, 'the error of isinstance() is lost')
        check(calls == [p], 'called after an error')
        calls.clear()

        def g(x):
            raise Failed()
        try:
            m.call_if_persistent(g, p)
        except Failed:
            pass
        else:
            check(False, 'the error is lost')
    check(sys.getrefcount(r) == n, 'references to the result')


def main(path, inp):
    m = load(path)
    h = inp['harness']
    if h in ('getattr_', 'setattr_'):
        attribute(m, inp, h == 'setattr_')
    elif h in ('new_', 'dealloc_', 'traverse_', 'clear_'):
        lifetime(m, inp)
        nomemory(m, inp)
    else:
        functions(m, inp)
    for f in sorted(set(failures))[:5]:
        print(f)
    return 1 if failures else 0


if __name__ == '__main__':
    if sys.argv[2].startswith('{'):
        sys.exit(main(sys.argv[1], json.loads(sys.argv[2])))
    with open(sys.argv[2]) as f:
        sys.exit(main(sys.argv[1], json.load(f)['inputs']))
