"""Shared by the collection harnesses: one operation on a collection of
arbitrary contents and status, next to the same operation on a plain one."""


class Connection(object):
    """Holds the stored state and counts what it is told."""

    transaction_serial = 1

    def __init__(self, obj, state, status):
        self.obj = obj
        self.state = state
        self.changes = 0
        self.accesses = 0
        self.loads = 0
        obj._p_connection = self
        obj._p_oid = b'\0\0\0\0\0\0\0\1'
        if status == 'ghost':
            obj._p_set_status_ghost()
        elif status == 'saved':
            obj._p_set_status_saved()
        self.status = status

    def load_state(self, obj):
        assert obj is self.obj
        self.loads += 1
        obj.__setstate__(self.state())

    def note_change(self, obj):
        assert obj is self.obj
        self.changes += 1

    def note_access(self, obj):
        assert obj is self.obj
        self.accesses += 1
        obj._p_serial = self.transaction_serial


STATUSES = ['saved', 'ghost', 'unsaved']
ERRORS = (KeyError, IndexError, TypeError, ValueError, AttributeError)


def outcome(f):
    try:
        return 'ok', f()
    except ERRORS as e:
        return 'error', type(e).__name__


def tracked(env, conn, obj, before, after, reads, same, touches=True):
    """The change tracking after one operation."""
    if conn.status == 'unsaved':
        env.check(obj._p_is_unsaved() and not conn.changes,
                  'status of a new object')
        return
    if not reads:
        # contents that differ have to be noted, whatever the operation
        changed = env.not_(same(before, after))
        env.check(env.implies(changed, obj._p_is_unsaved() and
                              conn.changes == 1),
                  'the contents changed, the object is not marked changed')
    else:
        env.check(not conn.changes and not obj._p_is_unsaved(),
                  'an operation that only reads marked the object changed')
    env.check((conn.changes == 1) == obj._p_is_unsaved() and
              conn.changes <= 1, 'one note of the change')
    if conn.status == 'ghost':
        env.check(conn.loads <= 1, 'loaded once')
    if touches:
        env.check(conn.accesses == 1 or obj._p_is_unsaved(),
                  'the access is not noted')


class Twin(object):
    """All of them are equal, and each is another object."""

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 17


class Never(object):
    """Not equal to anything, like a NaN."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__


# of the first element, and of the operand
ODD = [('int', 'int'), ('none', 'int'), ('int', 'none'), ('none', 'none'),
       ('twin', 'twin'), ('never', 'never')]


def odd(env, kinds=ODD):
    """-> a function that makes an arbitrary element of the chosen kind"""
    first, operand = env.choice('elements', kinds)
    never = Never()

    def make(name, i=0, is_operand=False):
        kind = operand if is_operand else first
        if i or kind == 'int':
            return env.int(name, 0, 9)
        return {'none': None, 'twin': Twin(), 'never': never}[kind]
    make.plain = first == operand == 'int'
    make.ordered = first in ('int', 'twin') and operand == first
    return make


def exact(env, a, b):
    """The same elements, and not only equal ones."""
    if type(a) is not type(b) and (isinstance(a, (list, tuple)) or
                                   isinstance(b, (list, tuple))):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return env.all(*[exact(env, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, (Twin, Never)) or \
            isinstance(b, (Twin, Never)):
        return a is b
    return env.eq(a, b)


def exact_dict(env, a, b):
    if len(a) != len(b):
        return False
    return exact(env, [[k, v] for k, v in a.items()],
                 [[k, v] for k, v in b.items()])


def exact_set(env, a, b):
    """Equal sets, and the very same odd elements."""
    if len(a) != len(b):
        return False
    one = [x for x in a if x is None or isinstance(x, (Twin, Never))]
    two = [x for x in b if x is None or isinstance(x, (Twin, Never))]
    rest = [x for x in a if not (x is None or isinstance(x, (Twin, Never)))]
    return len(one) == len(two) and all(
        any(x is y for y in two) for x in one) and env.all(
        *[x in b for x in rest])
