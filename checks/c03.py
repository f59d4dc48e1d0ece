"""One failing file operation during a commit."""
import errno
from checks.common import *
from vf.simfs import Torn

EXPECT = ['end', 'failed']
BOUNDS = ('FileStorage and FileStorage2: one commit of 1-2 records of any '
          'length up to 4096 bytes, in which any one file operation fails '
          '(a write after any part of it); SqliteStorage: a commit of 2 '
          'records of which either is malformed; then 1-2 more transactions '
          'and a reopen')
ASSUMPTIONS = ['a failed operation has no effect, a failed write may be '
               'incomplete; the file system works again after the failure']
OPS = 16


def cases(tier):
    out = []
    for kind in ('fs', 'fs2'):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for packed in (False, True):
                out.append(dict(name='%s-%d%s' % (kind, n, '-packed' if packed
                                                  else ''), func='fault',
                                params=dict(kind=kind, n=n, packed=packed)))
    out.append(dict(name='sqlite-malformed', func='malformed', params={}))
    return out


def fault(env, kind, n, packed):
    st = Store(env, kind)
    s = st.open()
    fs = WORLD.fs
    oids = [s.new_oid() for i in range(3)]
    state = {}
    state[oids[0]] = record(env, oids[0], env.blob('root', 0, 4096))
    commit(s, list(state.items()))
    if packed:
        s.pack()
        for i in range(4):
            s.new_oid()
    pairs = [(oid, record(env, oid, env.blob('t%d' % j, 0, 4096)))
             for j, oid in enumerate((oids[1:] + oids[:1])[:n])]
    at = env.choice('fail_at', OPS)
    count = [0]

    def hook(op):
        count[0] += 1
        if count[0] == at + 1:
            if op[0] == 'write':
                raise Torn(env.int('torn', 0, env.blen(op[3]) - 1))
            raise OSError(errno.EIO, 'Input/output error')
    fs.fault = hook
    failed = False
    try:
        commit(s, pairs)
    except Exception:
        failed = True
    fs.fault = None
    if not failed:
        env.check(count[0] <= at, 'the failure was not reported')
        env.check(count[0] < OPS, 'more operations than were made to fail')
        state.update(pairs)
        env.reach('succeeded')
    else:
        env.reach('failed')
    for oid in oids:
        env.check(same(env, lookup(s, oid), state.get(oid)),
                  'the state is not the one before the failed transaction')
    how = env.choice('then', ['reopen', 'retry', 'other'])
    if how == 'reopen':
        pass
    else:
        if how == 'other':
            pairs = [(oids[2], record(env, oids[2],
                                      env.blob('next', 0, 4096)))]
        commit(s, pairs)
        state.update(pairs)
    for oid in oids:
        env.check(same(env, lookup(s, oid), state.get(oid)),
                  'the transaction after the failure')
    s.close()
    s = st.open()
    for oid in oids:
        env.check(same(env, lookup(s, oid), state.get(oid)),
                  'the state after the failure does not survive reopening')
    env.observe('end', [lookup(s, oid) for oid in oids])
    env.reach('end')


def malformed(env):
    st = Store(env, 'sqlite')
    s = st.open()
    oids = [s.new_oid() for i in range(3)]
    state = {}
    for oid in oids[:2]:
        state[oid] = record(env, oid, env.blob('v', 0, 4096))
    commit(s, list(state.items()))
    good = [(oid, record(env, oid, env.blob('w', 0, 4096)))
            for oid in oids]
    bad = env.choice('bad', 3)
    pairs = list(good)
    pairs[bad] = (oids[bad], env.cut(good[bad][1], 0, env.int('cut', 0, 11)))
    try:
        commit(s, pairs)
    except Exception:
        env.reach('failed')
    else:
        env.fail('a malformed record was accepted')
    for oid in oids:
        env.check(same(env, lookup(s, oid), state.get(oid)),
                  'the state is not the one before the failed transaction')
    if env.choice('then', [False, True]):
        commit(s, good[:1])
        state.update(good[:1])
    if env.choice('reopen', [False, True]):
        s.close()
        s = st.open()
    for oid in oids:
        env.check(same(env, lookup(s, oid), state.get(oid)),
                  'the state after the failure')
    env.observe('end', [lookup(s, oid) for oid in oids])
    env.reach('end')
