"""Writes MANIFEST.json: one check for each property with a module."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
TECH = {
    'C16': 'bounded model checking (CBMC) of the compiled C source with a symbolic Python object model',
}
TECH['default'] = ('symbolic execution of the current Python source, every '
                   'branch and assertion decided by Z3 over all values '
                   'within the bounds; counterexamples replayed on the '
                   'unmodified code')
NOTE = {}
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in NA or not os.path.exists(
            os.path.join(V, 'checks', pid.lower() + '.py')):
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
        continue
    src = open(os.path.join(V, 'checks', pid.lower() + '.py')).read()
    ns = {}
    import importlib
    m = importlib.import_module('checks.' + pid.lower())
    note = 'All values within: %s.' % m.BOUNDS.rstrip('.')
    if getattr(m, 'ASSUMPTIONS', None):
        note += ' Assumes: %s.' % '; '.join(m.ASSUMPTIONS)
    checks.append(dict(
        property=pid,
        quick_cmd='python3-vt -B -m vf.run %s' % pid,
        thorough_cmd='python3-vt -B -m vf.run %s --thorough' % pid,
        technique=TECH.get(pid, TECH['default']),
        level='model_checking', level_note=note))
out = dict(version=1, setup_cmd='python3-vt -B tools/selftest.py',
           checks=checks, not_applicable=na,
           notes='See DESIGN.md. No hooks: the checks load the source of '
                 '/repo themselves.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
