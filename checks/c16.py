"""The C implementation of the attribute rules (and of the life of the objects
and the helper functions), decided by CBMC on the current _persistent.c,
linked with a symbolic model of the functions of CPython that it calls."""
from concurrent.futures import ThreadPoolExecutor
import json
import os
import re
import subprocess
import tempfile
import time

BOUNDS = ('attribute names of up to 16 bytes (thorough 32) in UTF-8, any '
          'characters below U+0800, the null character included, also names '
          'that have no UTF-8 form, and names that are no strings; any '
          'status, with or without a connection, any serial; any of the '
          'called methods and allocations fails or not; any field of a dying '
          'or visited object present or not; any number of arguments to the '
          'functions up to 3')
ASSUMPTIONS = ['the functions of CPython do what its documentation says '
               '(checks/c16_harness.c has them)',
               '_p_connection is None or an instance of ConnectionBase; only '
               'stored objects are ghosts',
               'the Python implementation follows the same rule: C15 decides '
               'that with names of any characters',
               'compiled as for CPython 3.12']
HERE = os.path.dirname(os.path.abspath(__file__))
SOURCE = '/repo/durus/_persistent.c'
INCLUDE = '/usr/include/python3.12'
PYTHON = '/opt/venv/bin/python'
HARNESSES = ('getattr_', 'setattr_', 'new_', 'dealloc_', 'traverse_',
             'clear_', 'setattribute_', 'getattribute_',
             'call_if_persistent_')
# what CBMC itself provides
KNOWN = set('''nondet_bool gcc_builtin_va_arg nondet_uchar strlen strcpy
    malloc nondet_int nondet_long strcmp calloc strrchr strncmp memcmp memcpy
    memset strchr strstr free abort'''.split())


def cbmc(goto, function, n, extra=()):
    t = time.time()
    p = subprocess.run(
        ['cbmc', goto, '--function', function, '--no-malloc-may-fail',
         '--unwind', str(n + 5), '--unwinding-assertions', '--trace',
         '--json-ui', '--verbosity', '8'] + list(extra), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=700)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        return dict(error=p.stderr.decode()[-1000:], wall=time.time() - t)
    res = dict(results=[], error=None, wall=time.time() - t, solver=0.0,
               size=0)
    for m in out:
        if 'result' in m:
            res['results'] = m['result']
        text = m.get('messageText', '')
        a = re.match(r'Runtime decision procedure: ([\d.e-]+)s', text)
        if a:
            res['solver'] += float(a.group(1))
        a = re.match(r'(\d+) variables, (\d+) clauses', text)
        if a:
            res['size'] = max(res['size'], int(a.group(2)))
        if m.get('messageType') == 'ERROR':
            res['error'] = text
    if not res['results'] and res['error'] is None:
        res['error'] = 'no result'
    return res


def number(v):
    try:
        return int(str(v.get('data', '0')).rstrip('ulUL'))
    except ValueError:
        return 0


def inputs(trace, harness):
    last = {}
    for step in trace:
        if step.get('stepType') == 'assignment':
            v = step.get('value', {})
            last[re.sub(r'[lu]+\]', ']', step['lhs'])] = v
            for i, e in enumerate(v.get('elements', ())):
                last['%s[%d]' % (step['lhs'], i)] = e.get('value', {})
    get = lambda n: number(last.get(n, {}))
    k = min(max(get('in_len'), 0), 64)
    return dict(harness=harness, status=get('in_status'),
                connected=get('in_connected'), current=get('in_current'),
                kind=get('in_kind'), delete=get('in_delete'),
                instance=get('in_instance'),
                name=[get('in_name[%d]' % i) & 255 for i in range(k)],
                failing=[get('ev[%d]' % i) for i in range(get('nev'))
                         if not get('ev_ok[%d]' % i)])


def compile_extension(where):
    so = os.path.join(where, '_persistent.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + INCLUDE,
                    SOURCE, '-o', so], check=True, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT)
    return so


def replay(so, inp):
    p = subprocess.run([PYTHON, '-B', os.path.join(HERE, 'c16_replay.py'), so,
                        json.dumps(inp)], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    out = p.stdout.decode().strip().splitlines()
    if p.returncode < 0:
        out.append('the interpreter died (signal %d)' % -p.returncode)
    elif p.returncode and not out:
        out = p.stderr.decode().strip().splitlines()[-1:]
    return out if p.returncode else []


def main(pid, tier, seed, evidence_path):
    start = time.time()
    n = 32 if tier == 'thorough' else 16
    rc, lines, errors, incomplete = 0, [], [], []
    with tempfile.TemporaryDirectory(prefix='vfc16') as tmp:
        goto = os.path.join(tmp, 'all.gb')
        vacuous = os.path.join(tmp, 'vacuous.gb')
        harness = os.path.join(HERE, 'c16_harness.c')
        for out, defs in ((goto, []), (vacuous, ['-DVACUITY'])):
            p = subprocess.run(
                ['goto-cc', '-DN=%d' % n, '-I' + INCLUDE] + defs +
                [harness, SOURCE, '-o', out], stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT)
            if p.returncode:
                print(p.stdout.decode()[-2000:])
                print('%s: %s does not compile' % (pid, SOURCE))
                return 2
        p = subprocess.run(['goto-instrument', '--list-undefined-functions',
                            goto], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        unknown = [x for x in p.stdout.decode().split('\n')[1:]
                   if x and not x.startswith('__') and x not in KNOWN]
        p = subprocess.run(['goto-instrument', '--list-goto-functions', goto],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if unknown:
            incomplete.append('not modelled: %s' % ', '.join(unknown))
        found, runs = [], []
        with ThreadPoolExecutor(8) as tp:
            jobs = [tp.submit(cbmc, goto, h, n) for h in HARNESSES]
            jobs2 = [tp.submit(cbmc, vacuous, h, n,
                               ['--property', '%s.assertion.%d' % (h, k)])
                     for h, k in vacuity(vacuous)]
            for h, j in zip(HARNESSES, jobs):
                r = j.result()
                runs.append((h, r))
                if r['error']:
                    errors.append('%s: %s' % (h, r['error']))
                    continue
                bad = [x for x in r['results'] if x['status'] != 'SUCCESS']
                if bad:
                    found.append((h, bad))
            for h, j in zip(HARNESSES, jobs2):
                r = j.result()
                if not any(x['status'] == 'FAILURE' and
                           x['description'] == 'reached'
                           for x in r.get('results') or ()) and \
                        h not in [f[0] for f in found] and not unknown:
                    errors.append('%s: its end is never reached (vacuous)' % h)
        os.makedirs(os.path.dirname(evidence_path) + '/replay', exist_ok=True)
        so = compile_extension(tmp)
        samples = []
        k = 0
        for h, bad in found:
            confirmed = None
            tried = []
            for x in bad:
                inp = inputs(x.get('trace', ()), h)
                if inp in tried:
                    continue
                tried.append(inp)
                got = replay(so, inp)
                if got:
                    confirmed = (x, inp, got)
                    break
            if confirmed is None and (unknown or any(
                    'not modelled' in x['description'] or
                    'unwinding' in x['description'] for x in bad)):
                incomplete.append('%s: %s' % (h, bad[0]['description']))
                continue
            if confirmed is None:
                errors.append('%s: counterexample does not reproduce: %s %s' %
                              (h, bad[0]['description'], tried[:1]))
                continue
            x, inp, got = confirmed
            path = os.path.join(os.path.dirname(evidence_path), 'replay',
                                '%s-%d.json' % (pid, k))
            k += 1
            with open(path, 'w') as f:
                json.dump(dict(property=pid, inputs=inp,
                               solver_says=x['description'], replayed=got,
                               run='build the extension and run %s '
                               'checks/c16_replay.py EXTENSION %s'
                               % (PYTHON, path)), f, indent=1)
            print('  %s: %s: %s' % (h, x['description'], '; '.join(got)))
            print('  inputs: %s' % json.dumps(inp)[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        # the encoding against the compiled code, on fixed inputs
        validated = 0
        if not found:
            for inp in fixed():
                got = replay(so, inp)
                if got:
                    errors.append('the compiled code fails where the encoding '
                                  'does not: %s %s' % (got, inp))
                validated += 1
                samples.append(inp)
    for i in incomplete:
        print('INCOMPLETE', i)
    for e in errors:
        print('ERROR', e)
    if errors and not rc:
        rc = 2
    wall = time.time() - start
    props = sum(len(r.get('results') or ()) for h, r in runs)
    ok = sum(x['status'] == 'SUCCESS' for h, r in runs
             for x in r.get('results') or ())
    solver = sum(r.get('solver', 0) for h, r in runs)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=sum(r.get('size', 0) for h, r in runs), transitions=props,
            traces_validated_against_impl=validated, samples=samples[:3],
            exhaustive=not incomplete and not errors,
            obligations=props, discharged=ok, queries=len(runs),
            solver_time_s=round(solver, 2),
            functions_encoded=['durus/_persistent.c: every function reached '
                               'from the types and the table of functions '
                               'that PyInit__persistent() sets up'],
            bounds=BOUNDS,
            cases=[dict(case=h, assertions=len(r.get('results') or ()),
                        clauses=r.get('size', 0), wall_s=round(r['wall'], 2))
                   for h, r in runs],
            explanation='states = clauses of the SAT instances; transitions '
            '= assertions, those on memory safety included'),
        assumptions=ASSUMPTIONS, wall_s=round(wall, 2),
        violations=len(found))
    with open(evidence_path, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d assertions (%d discharged), solver %.1fs, '
          'wall %.1fs -> %s' % (pid, tier, len(runs), props, ok, solver, wall,
                                {0: 'holds', 1: 'VIOLATED', 2: 'no answer'}[rc]))
    return rc


def vacuity(goto):
    """The last assertion of each harness."""
    p = subprocess.run(['goto-instrument', '--show-properties', '--json-ui',
                        goto], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    names = re.findall(r'"name": "(\w+)\.assertion\.(\d+)"',
                       p.stdout.decode())
    return [(h, max(int(k) for f, k in names if f == h)) for h in HARNESSES]


def fixed():
    for h in ('getattr_', 'setattr_'):
        for name in (b'a', b'_p_x', b'__repr__', b'__repr__\0', b'_p',
                     b'__class__x', b'__setstate_', b'', b'\xc3\xa9'):
            for status in (-1, 0, 1):
                for failing in ([], [1], [2], [3]):
                    yield dict(harness=h, status=status, connected=1,
                               current=0, kind=0, name=list(name),
                               failing=failing)
            break_ = dict(harness=h, status=1, connected=0, current=0, kind=0,
                          name=list(name), failing=[])
            yield break_
    for kind in (1, 2):
        yield dict(harness='getattr_', status=0, connected=1, kind=kind)
    yield dict(harness='new_')
    yield dict(harness='setattribute_')
