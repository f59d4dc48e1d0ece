"""What a reader sees while another client commits."""
from checks.two import *

EXPECT = ['end', 'committed']
BOUNDS = ('two connections, through real clients and the real server, on '
          'three objects (thorough: also FileStorage) with arbitrary values, '
          'of which any part is already loaded; a transaction of up to 3 '
          'reads (by attribute, by identifier, or reading ahead), with up to '
          '2 (thorough 3) commits of any of the objects by the other client '
          'at any point where the first one asks the server; then a second '
          'transaction of reads')
ASSUMPTIONS = ['after a conflict the client aborts, as it is told to',
               'the server handles one request after the other (it does, '
               'having one thread), so that clients interleave at requests']

READS = ('read.x', 'read.y', 'read.z', 'get.x', 'ahead')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for first in READS + ('write.x',):
        for second in READS + ('get.y',):
            out.append(dict(
                name='%s-%s' % (first, second), func='run',
                expect=['end', 'committed'],
                params=dict(kind='fs' if deep and first == 'ahead' else
                            'memory', ops=[first, second],
                            steps=3, others=2 if deep else 1, snapshot=True,
                            names=('x', 'y', 'z'), more=READS[:3])))
    for first in ('read.x', 'read.y'):
        out.append(dict(name=first + '-2', func='run', weight=2,
                        expect=['end', 'committed'],
                        params=dict(kind='memory', ops=[first, 'read.x'],
                                    steps=2, others=3 if deep else 2,
                                    snapshot=True, more=())))
    return out
