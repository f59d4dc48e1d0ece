"""Runs one harness case: symbolically (worker) or concretely (replay)."""
import gc
import importlib
import os
import signal
import sys
import time
import traceback
from vf.env import WORLD, AssumeFailed, Stop, Env, Unmodelled

_loaded = {}


class PathTimeout(BaseException):
    pass


def load_durus(mod, symbolic):
    """Load durus as the harness module wants it (once per process)."""
    from vf import loader, simfs, simdb
    key = symbolic
    if _loaded.get('key') == key and _loaded.get('mod') == mod.__name__:
        return
    fakes, opener = {}, None
    if getattr(mod, 'SIMFS', True):
        fakes.update(simfs.fakes())
        opener = simfs.sim_open
    if hasattr(mod, 'fakes'):
        fakes.update(mod.fakes())
    c_ext = None
    if not symbolic and getattr(mod, 'C_EXT', False):
        c_ext = os.environ.get('VF_CEXT')
    if hasattr(mod, 'unload'):
        mod.unload()
    loader.load(loader.Spec(symbolic, fakes, opener, c_ext))
    _loaded['key'] = key
    _loaded['mod'] = mod.__name__


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for f in reversed(tb):
        if '/durus/' in f.filename:
            where = ' at %s:%s' % (os.path.basename(f.filename), f.name)
            break
    return '%s%s: %s' % (type(exc).__name__, where, str(exc)[:200])


def prune(exc, n=12):
    return ''.join(traceback.format_exception(exc)[-n:])


# -------------------------------------------------------------- symbolic mode

def run_symbolic(modname, case, deadline, want_traces, token=None,
                 slice_end=None, give=None):
    """`token` says where to go on; what is not explored at `slice_end` is
    in the result as 'rest'.  give(f): called now and then, f() -> a token
    for another process, or None."""

    from vf import engine, symenv, models, sym
    mod = importlib.import_module(modname)
    load_durus(mod, True)
    func = getattr(mod, case['func'])
    params = case.get('params', {})
    eng = engine.Engine(deadline=deadline,
                        max_paths=case.get('max_paths', 1000000))
    eng.forced = token or []
    engine.CURRENT = eng
    models.FUNCTIONS.clear()
    res = dict(case=case['name'], violations=[], reached={}, paths=0,
               ended=0, infeasible=0, traces=[], error=None, complete=False)
    seen = {}
    per_path = case.get('path_timeout', 120)
    start = time.time()

    def alarm(sig, frame):
        raise PathTimeout()
    signal.signal(signal.SIGALRM, alarm)
    gc.disable()
    env = None
    stop_after = case.get('max_violations', 6)

    def on_violation(m, failing, msg, key):
        n = seen.get(key, 0)
        if n >= 1:
            return
        if env.hints:
            m = eng.small_model(m, failing, env.hints)
        try:
            inputs = env.model_inputs(m)
        except ValueError:
            if n == 0 and len(seen) < 50:
                return          # another path may have a smaller one
            raise
        seen[key] = n + 1
        res['violations'].append(dict(msg=msg, key=key, inputs=inputs))

    while True:
        eng.start()
        env = symenv.SymEnv(eng)
        env.on_violation = on_violation
        sym._tokens.clear()
        WORLD.__dict__.clear()
        signal.setitimer(signal.ITIMER_REAL, per_path)
        outcome = 'ended'
        try:
            try:
                func(env, **params)
            except Stop:
                pass
            signal.setitimer(signal.ITIMER_REAL, 0)
            if not eng.in_prefix():
                if want_traces > len(res['traces']) and env.observations:
                    m = eng.get_model()
                    try:
                        res['traces'].append(dict(
                            inputs=env.model_inputs(m),
                            observations=[[l, env.value(m, v)]
                                          for l, v in env.observations]))
                    except ValueError:
                        pass
                else:
                    eng.feasible()
        except engine.Infeasible:
            outcome = 'infeasible'
        except engine.Budget as e:
            res['error'] = 'budget: %s' % e
            outcome = 'budget'
        except engine.PathEnd:
            outcome = 'violation'
        except engine.Unsupported as e:
            res['error'] = 'unsupported: %s\n%s' % (e, prune(e))
            outcome = 'unsupported'
        except Unmodelled as e:
            res['error'] = 'not modelled: %s\n%s' % (e, prune(e))
            outcome = 'unsupported'
        except engine.z3.Z3Exception as e:
            res['error'] = 'solver error: %s\n%s' % (e, prune(e))
            outcome = 'unsupported'
        except PathTimeout as e:
            outcome = 'timeout'
            try:
                m = eng.get_model()
                on_violation(m, engine.z3.BoolVal(True),
                             'does not terminate (%ss)' % per_path,
                             'does not terminate')
            except engine.PathEnd:
                pass
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            outcome = 'exception'
            if not eng.in_prefix():
                try:
                    m = eng.get_model()
                except engine.Infeasible:
                    outcome = 'infeasible'
                except engine.Budget as b:
                    res['error'] = 'budget: %s' % b
                else:
                    d = describe(e)
                    key = 'unexpected ' + d.split(': ')[0]
                    if key not in seen:
                        on_violation(m, engine.z3.BoolVal(True),
                                     'unexpected ' + d, key)
                        if res['violations']:
                            res['violations'][-1]['traceback'] = prune(e)
            else:
                res['error'] = 'exception inside the replayed prefix: %s' % (
                    prune(e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                env.run_cleanups()
            except Exception as e:
                res['error'] = 'cleanup failed: %s' % prune(e)
        res['paths'] += 1
        if outcome == 'infeasible':
            res['infeasible'] += 1
        else:
            for k, v in env.reached.items():
                res['reached'][k] = res['reached'].get(k, 0) + v
            res['ended'] += 1
        if res['error'] is not None:
            break
        if len(res['violations']) >= stop_after:
            res['stopped'] = 'violations'
            break
        if res['paths'] % 200 == 0:
            gc.collect()
        if not eng.backtrack():
            res['complete'] = True
            break
        if give is not None:
            give(eng.split)
        if slice_end is not None and slice_end < time.time() < deadline:
            res['rest'] = eng.token()
            break
        if res['paths'] >= eng.max_paths:
            res['error'] = 'budget: too many paths'
            break
        if time.time() > deadline:
            res['error'] = 'budget: time'
            break
    gc.enable()
    res.update(queries=eng.queries, solver_time=eng.solver_time,
               obligations=eng.obligations, discharged=eng.discharged,
               decisions=eng.ndecisions, wall=time.time() - start,
               functions=sorted(models.FUNCTIONS))
    engine.CURRENT = None
    return res


# -------------------------------------------------------------- concrete mode

def run_concrete(modname, case, inputs, timeout=60):
    mod = importlib.import_module(modname)
    load_durus(mod, False)
    func = getattr(mod, case['func'])
    env = Env(inputs)
    WORLD.__dict__.clear()

    def alarm(sig, frame):
        raise PathTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    out = dict(violations=[], observations=[], outcome='ended', error=None)
    gc.disable()
    try:
        func(env, **case.get('params', {}))
    except Stop:
        pass
    except Unmodelled as e:
        out['outcome'] = 'not modelled: %s' % e
        out['error'] = prune(e)
    except AssumeFailed:
        out['outcome'] = 'assumption not met'
    except PathTimeout:
        out['violations'].append(('does not terminate', 'does not terminate'))
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        d = describe(e)
        out['violations'].append(('unexpected ' + d,
                                  'unexpected ' + d.split(': ')[0]))
        out['traceback'] = prune(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        gc.enable()
        try:
            env.run_cleanups()
        except Exception as e:
            out['error'] = prune(e)
    out['violations'] = env.violations + out['violations']
    out['observations'] = [list(o) for o in env.observations]
    return out
