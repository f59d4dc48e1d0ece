"""Two clients of one server change and read the same objects."""
from checks.two import *

EXPECT = ['end', 'committed', 'conflict']
BOUNDS = ('two connections, through real clients and the real server, on '
          'three objects with arbitrary values of which any part is already '
          'loaded; a transaction of up to 3 operations (read, change, blind '
          'change, create, read ahead) of one client, with up to 2 (thorough '
          '3) commits by the other one at any point where the first client '
          'asks the server; then a second transaction')
ASSUMPTIONS = ['after a conflict the client aborts, as it is told to',
               'the server handles one request after the other (it does, '
               'having one thread), so that clients interleave at requests']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('memory', 'fs') if deep else ('memory',):
        for first in OPS:
            for second in OPS:
                out.append(dict(
                    name='%s-%s-%s' % (kind, first, second), func='run',
                    expect=['end', 'committed'],
                    params=dict(kind=kind, ops=[first, second],
                                steps=3 if deep else 2,
                                others=3 if deep else 2,
                                snapshot=False)))
    for kind in ('memory', 'fs', 'fs2', 'sqlite'):
        out.append(dict(name=kind + '-both', func='both', weight=3,
                        params=dict(kind=kind, steps=5 if deep else 3)))
    return out
