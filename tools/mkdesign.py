"""Writes the table of properties in DESIGN.md from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
B, E = '<!-- properties -->\n', '<!-- end of properties -->\n'
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    q = json.loads(l)
    f = os.path.join(V, 'checks', q['id'].lower() + '.py')
    out.append('### %s %s\n\n' % (q['id'], q['title']))
    if not os.path.exists(f):
        out.append('Not checked.\n\n')
        continue
    m = importlib.import_module('checks.' + q['id'].lower())
    out.append('*Decided:* %s\n\n' % ' '.join(m.__doc__.split()))
    out.append('*Bounds:* %s.\n\n' % m.BOUNDS.rstrip('.'))
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('*Assumes:* %s.\n\n' % '; '.join(m.ASSUMPTIONS))
    ev = os.path.join(V, 'evidence', q['id'] + '.json')
a, b = s.index(B) + len(B), s.index(E)
open(p, 'w').write(s[:a] + '\n' + ''.join(out) + s[b:])
