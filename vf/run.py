"""python3-vt -m vf.run <property>: decide one property.

Exit 0: every obligation of every case was discharged over the whole bounded
space (a case that ran out of time is named INCOMPLETE, here and in the
evidence).  Exit 1: a counterexample reproduced on the real code.  Exit 2: no
answer (unsupported operation, counterexample that does not
reproduce, a case that never reached what it is about)."""
import sys
sys.dont_write_bytecode = True
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PYTHON = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def module_of(pid):
    return 'checks.' + pid.lower()


def _work(conn, hungry, job):
    modname, case, deadline, traces, token, slice_end = job
    from vf import case as c
    begin = time.time()

    def give(split):
        # to a process that has nothing to do
        if hungry.value > 0 and time.time() - begin > .3:
            with hungry.get_lock():
                if hungry.value <= 0:
                    return
                t = split()
                if t is not None:
                    hungry.value -= 1
            if t is not None:
                conn.send(('split', t))
    try:
        r = c.run_symbolic(modname, case, deadline, traces, token, slice_end,
                           give)
    except BaseException as e:      # noqa
        r = no_result(case, 'internal error: %s' % c.prune(e))
    conn.send(('done', r))
    conn.close()


def no_result(case, error):
    return dict(case=case['name'], violations=[], reached={}, paths=0,
                ended=0, infeasible=0, traces=[], complete=False,
                error=error, queries=0, solver_time=0, obligations=0,
                discharged=0, decisions=0, wall=0, functions=[])


def merge(a, b):
    """The results of two parts of a case."""
    for k in ('paths', 'ended', 'infeasible', 'queries', 'solver_time',
              'obligations', 'discharged', 'decisions', 'wall'):
        a[k] += b[k]
    for k in ('violations', 'traces'):
        a[k] = a[k] + b[k]
    for k, v in b['reached'].items():
        a['reached'][k] = a['reached'].get(k, 0) + v
    a['functions'] = sorted(set(a['functions']) | set(b['functions']))
    if a['error'] is None or (a['error'].startswith('budget: ') and
                              b['error'] is not None):
        a['error'] = b['error']
    a['complete'] = a['complete'] and b['complete']
    return a


class Workers(object):
    """At most nproc processes, each with a part of a case.  Processes that
    have nothing to do get a part of what others have; a part is suspended
    when it has run for a while and others wait."""

    def __init__(self, nproc):
        self.nproc = nproc
        self.ctx = multiprocessing.get_context('fork')
        self.running = {}           # connection -> (process, case)

    def run(self, modname, cases, deadline, traces):
        todo = [(c, None) for c in cases]
        parts = dict((c['name'], 1) for c in cases)
        merged = {}
        hungry = self.ctx.Value('i', 0)
        while todo or self.running:
            while todo and len(self.running) < self.nproc:
                now = time.time()
                wait = 1 + len(todo) // self.nproc
                end = now + max(8.0, min(60.0, (deadline - now) / wait / 2))
                case, token = todo.pop(0)
                have = merged.get(case['name'])
                want = traces - len(have['traces']) if have else traces
                if now > deadline:
                    yield from self.finish(
                        no_result(case, 'budget: time'), case, parts, merged)
                    continue
                here, there = self.ctx.Pipe(False)
                p = self.ctx.Process(target=_work, daemon=True, args=(
                    there, hungry, (modname, case, deadline, max(want, 0),
                                    token, end)))
                p.start()
                there.close()
                self.running[here] = (p, case)
            with hungry.get_lock():
                hungry.value = max(0, self.nproc - len(self.running)) \
                    if not todo else 0
            for conn in multiprocessing.connection.wait(
                    list(self.running), timeout=5):
                p, case = self.running[conn]
                try:
                    what, r = conn.recv()
                except (EOFError, OSError):
                    what = 'done'
                    r = no_result(case, 'budget: the process was ended')
                if what == 'split':
                    parts[case['name']] += 1
                    todo.append((case, r))
                    continue
                del self.running[conn]
                conn.close()
                p.join(10)
                p.kill()
                rest = r.pop('rest', None)
                if rest is not None:
                    parts[case['name']] += 1
                    todo.append((case, rest))
                    r['complete'] = True        # (of this part)
                yield from self.finish(r, case, parts, merged)
            if time.time() > deadline + 60:
                for conn, (p, case) in list(self.running.items()):
                    del self.running[conn]
                    p.kill()
                    conn.close()
                    yield from self.finish(no_result(
                        case, 'budget: one query took too long'),
                        case, parts, merged)

    def finish(self, r, case, parts, merged):
        name = case['name']
        old = merged.get(name)
        if r['violations']:
            # at once
            yield dict(r, partial=True)
        merged[name] = r if old is None else merge(old, r)
        parts[name] -= 1
        if not parts[name]:
            yield merged[name]

    def stop(self):
        for p, case in self.running.values():
            p.kill()
        self.running = {}


def replay_batch(jobs, environ):
    """Run models on the unmodified code in the repository's interpreter."""
    if not jobs:
        return []
    with tempfile.TemporaryDirectory(prefix='vfreplay') as d:
        fn = os.path.join(d, 'jobs.json')
        with open(fn, 'w') as f:
            json.dump(jobs, f)
        env = dict(os.environ)
        env.update(environ)
        env['PYTHONPATH'] = VERIF
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        p = subprocess.run([REPO_PYTHON, '-B', '-m', 'vf.replay', '--batch',
                            fn], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(fn + '.out'):
            if len(jobs) == 1:
                return [dict(violations=[('the interpreter died: exit %s'
                                          % p.returncode, 'crash')]
                             if p.returncode < 0 else [],
                             observations=[], outcome='died', error=None,
                             output=p.stdout.decode('utf8', 'replace')[-3000:])]
            out = []
            for j in jobs:
                out += replay_batch([j], environ)
            return out
        with open(fn + '.out') as f:
            return json.load(f)


def norm(x):
    return json.loads(json.dumps(x))


def known_findings(pid):
    """Lines `known: property=<id> | <case prefix> | <key> | <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('known: property=%s |' % pid):
                    _, case, key, what = [x.strip() for x in
                                          line.split('|', 3)]
                    out.append(dict(case=case, key=key, what=what))
    return out


def main(pid, argv=()):
    start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = module_of(pid)
    mod = importlib.import_module(modname)
    only = [a[7:] for a in argv if a.startswith('--case=')]
    evidence_path = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    if hasattr(mod, 'main'):
        return mod.main(pid, tier, seed, evidence_path)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if any(o in c['name'] for o in only)]
    budget = 420 if tier == 'quick' else 3000
    deadline = start + float(os.environ.get('VF_BUDGET', budget))
    ntr = getattr(mod, 'TRACES', 4)
    environ = {}
    if hasattr(mod, 'prepare'):
        environ = mod.prepare()
    nproc = int(os.environ.get('VF_PROCS', '8'))
    jobs = sorted(cases, key=lambda c: -c.get('weight', 1))
    verbose = '-v' in argv
    results = []
    known = known_findings(pid)

    def is_known(case, key):
        for k in known:
            if k['key'] == key and case.startswith(k['case']):
                return k
        return None

    confirmed, unconfirmed, known_seen = [], [], []
    met = set()
    cases_by_name = dict((c['name'], c) for c in cases)
    stopped = False
    workers = Workers(nproc)
    try:
        for r in workers.run(modname, jobs, deadline, ntr):
            if not r.get('partial'):
                results.append(r)
            if verbose and not r.get('partial'):
                print('%-50s paths=%d/%d obl=%d q=%d %.1fs solver=%.1fs %s %s'
                      % (r['case'], r['ended'], r['paths'], r['obligations'],
                         r['queries'], r['wall'], r['solver_time'],
                         'complete' if r['complete'] else 'INCOMPLETE',
                         r['reached']), flush=True)
                if r['error']:
                    print(r['error'])
            if r.get('partial'):
                r['violations'] = [
                    v for v in r['violations']
                    if (r['case'], v['key']) not in met]
                met.update((r['case'], v['key']) for v in r['violations'])
                case = cases_by_name[r['case']]
                out = replay_batch([dict(module=modname, case=case,
                                         inputs=v['inputs'])
                                    for v in r['violations']], environ)
                for v, o in zip(r['violations'], out):
                    v['case'] = r['case']
                    v['replayed'] = o
                    if o['violations']:
                        ks = [is_known(r['case'], x[1])
                              for x in o['violations']]
                        if all(ks):
                            known_seen.extend(k for k in ks
                                              if k not in known_seen)
                        else:
                            confirmed.append(v)
                    else:
                        unconfirmed.append(v)
                if confirmed and '--all' not in argv:
                    stopped = True
                    results.append(r)
                    break
    finally:
        workers.stop()
    rc = 0
    for k in known_seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for i, v in enumerate(confirmed):
        path = os.path.join(VERIF, 'evidence', 'replay',
                            '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, module=modname,
                           case=cases_by_name[v['case']],
                           inputs=v['inputs'], solver_says=v['msg'],
                           replayed=v['replayed'], environ=environ,
                           run='PYTHONPATH=/verif %s -m vf.replay %s'
                               % (REPO_PYTHON, path)), f, indent=1)
        print('  %s: %s' % (v['case'], '; '.join(
            x[0] for x in v['replayed']['violations'])))
        print('  inputs: %s' % json.dumps(v['inputs'])[:600])
        if verbose and v['replayed'].get('traceback'):
            print(v['replayed']['traceback'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    errors = []
    for r in results:
        if r['error'] and r['error'].startswith('budget: '):
            # what was explored held; the evidence says how far it went
            print('INCOMPLETE %s: %s after %d paths' % (
                r['case'], r['error'], r['ended']))
        elif r['error']:
            errors.append('%s: %s' % (r['case'], r['error']))
        case = cases_by_name[r['case']]
        if r['complete'] and not r['violations']:
            for label in case.get('expect', getattr(mod, 'EXPECT', [])):
                if not r['reached'].get(label):
                    errors.append('%s: never reached %r (vacuous)'
                                  % (r['case'], label))
    for v in unconfirmed:
        errors.append('%s: counterexample does not reproduce on the real '
                      'code: %s %s -> %s\n%s' % (
                          v['case'], v['msg'], json.dumps(v['inputs'])[:600],
                          v['replayed'].get('outcome'),
                          v.get('traceback', '')
                          + str(v['replayed'].get('output', ''))))
    # completed paths, replayed on the real code: what the encoding computed
    # must be what the code does
    validated, jobs, expect = 0, [], []
    if not stopped:
        for r in results:
            for tr in r['traces']:
                jobs.append(dict(module=modname, case=cases_by_name[r['case']],
                                 inputs=tr['inputs']))
                expect.append((r, tr))
        chunks = [list(range(i, len(jobs), 8)) for i in range(8)]
        outs = [None] * len(jobs)
        if jobs:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as tp:
                for idx, rs in zip(chunks, tp.map(
                        lambda c: replay_batch([jobs[i] for i in c], environ),
                        chunks)):
                    for i, o in zip(idx, rs):
                        outs[i] = o
        for (r, tr), o in zip(expect, outs):
            vs = [x for x in o['violations'] if not is_known(r['case'], x[1])]
            if vs and not r['violations']:
                errors.append('%s: the real code fails where the encoding '
                              'does not: %s %s' % (
                                  r['case'], vs, json.dumps(tr['inputs'])[:500]))
            elif o['outcome'] != 'ended':
                errors.append('%s: trace replay: %s %s' % (
                    r['case'], o['outcome'], tr['inputs']))
            elif norm(o['observations']) != norm(tr['observations']) and \
                    not o['violations']:
                errors.append(
                    '%s: the encoding and the real code disagree on %s:\n'
                    '  encoding %s\n  real     %s' % (
                        r['case'], json.dumps(tr['inputs'])[:500],
                        norm(tr['observations']), norm(o['observations'])))
            else:
                validated += 1
    wall = time.time() - start
    functions = sorted(set(f for r in results for f in r['functions']
                           if not f.endswith('.<lambda>')))
    tot = lambda k: sum(r[k] for r in results)
    samples = []
    for r in results:
        for tr in r['traces'][:1]:
            samples.append(dict(case=r['case'], inputs=tr['inputs'],
                                observed=norm(tr['observations'])[:6]))
    samples = samples[:3]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('ended'), transitions=tot('decisions'),
            traces_validated_against_impl=validated, samples=samples,
            exhaustive=all(r['complete'] for r in results) and
            len(results) == len(cases),
            obligations=tot('obligations'), discharged=tot('discharged'),
            queries=tot('queries'), solver_time_s=round(tot('solver_time'), 2),
            functions_encoded=functions,
            bounds=getattr(mod, 'BOUNDS', ''),
            cases=[dict(case=r['case'], paths=r['ended'],
                        infeasible=r['infeasible'], complete=r['complete'],
                        queries=r['queries'], obligations=r['obligations'],
                        solver_time_s=round(r['solver_time'], 2),
                        reached=r['reached']) for r in results],
            explanation='states = feasible paths explored to their end by '
            'symbolic execution of the current source; transitions = solver-'
            'decided branches; obligations = assertions put to the solver',
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(confirmed))
    tmp = evidence_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, evidence_path)
    for e in errors:
        print('ERROR', e)
    if rc == 0 and errors:
        rc = 2
    print('%s %s: %d cases, %d paths, %d obligations (%d discharged), '
          '%d queries, solver %.1fs, %d traces validated, wall %.1fs -> %s'
          % (pid, tier, len(results), tot('ended'), tot('obligations'),
             tot('discharged'), tot('queries'), tot('solver_time'), validated,
             wall, {0: 'holds', 1: 'VIOLATED', 2: 'no answer'}[rc]))
    return rc


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'vf.run'] +
                 sys.argv[1:])
    sys.exit(main(sys.argv[1], sys.argv[2:]))
