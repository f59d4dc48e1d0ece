"""Runs solver models against the unmodified code.

  python -m vf.replay FILE       FILE holds one violation; prints what happens
  python -m vf.replay --batch F  F holds many; writes F.out
"""
import json
import os
import sys

sys.dont_write_bytecode = True


def main():
    from vf import case
    if sys.argv[1] == '--batch':
        with open(sys.argv[2]) as f:
            jobs = json.load(f)
        out = []
        for j in jobs:
            out.append(case.run_concrete(j['module'], j['case'], j['inputs'],
                                         j.get('timeout', 60)))
        with open(sys.argv[2] + '.out', 'w') as f:
            json.dump(out, f)
        return 0
    with open(sys.argv[1]) as f:
        j = json.load(f)
    for k, v in j.get('environ', {}).items():
        os.environ.setdefault(k, v)
    r = case.run_concrete(j['module'], j['case'], j['inputs'])
    print('property  :', j.get('property'))
    print('case      :', j['case']['name'])
    print('inputs    :', json.dumps(j['inputs']))
    for o in r['observations']:
        print('observed  :', o)
    for v in r['violations']:
        print('VIOLATED  :', v[0])
    if r.get('traceback'):
        print(r['traceback'])
    if not r['violations']:
        print('no violation on this tree (%s)' % r['outcome'])
    return 1 if r['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
