"""python3-vt -m vf.prof C01 CASE [seconds]: where a case forks."""
import sys, os, time, collections, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', '-m', 'vf.prof'] + sys.argv[1:])


def main():
    from vf import case as c, engine
    pid, name = sys.argv[1:3]
    secs = float(sys.argv[3]) if len(sys.argv) > 3 else 20
    modname = 'checks.' + pid.lower()
    mod = importlib.import_module(modname)
    cs = [x for x in mod.cases('quick') if name in x['name']][0]
    where = collections.Counter()
    ex = {}
    orig = engine.Engine.decide

    def decide(self, cond):
        n = len(self.decisions)
        r = orig(self, cond)
        if len(self.decisions) > n and self.decisions[-1].alt is not None:
            d = self.decisions[-1]
            f = sys._getframe(1)
            st = []
            while f is not None:
                fn = f.f_code.co_filename
                if '/durus/' in fn or '/checks/' in fn or 'sim' in fn:
                    st.append('%s:%d' % (os.path.basename(fn), f.f_lineno))
                f = f.f_back
            k = ' < '.join(st[:7])
            if d.alt:
                where[k] += 1
                ex.setdefault(k, str(d.expr)[:150])
        return r
    engine.Engine.decide = decide
    orig_r = engine.Engine.realize_int

    def realize_int(self, x):
        f = sys._getframe(1)
        st = []
        while f is not None:
            fn = f.f_code.co_filename
            if '/durus/' in fn or '/checks/' in fn or 'sim' in fn or \
                    'models' in fn:
                st.append('%s:%d' % (os.path.basename(fn), f.f_lineno))
            f = f.f_back
        k = 'VALUE ' + ' < '.join(st[:7])
        where[k] += 1
        ex.setdefault(k, str(x.e)[:150])
        return orig_r(self, x)
    engine.Engine.realize_int = realize_int
    r = c.run_symbolic(modname, cs, time.time() + secs, 2)
    print({k: v for k, v in r.items() if k not in ('functions', 'traces')})
    for k, n in where.most_common(25):
        print(n, k)
        print('      ', ex[k])


main()
