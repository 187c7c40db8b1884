"""Hash-consed SMT terms over Int and Bool.

Python ``int``/``bool`` values are used directly as constants, so a term that
simplifies to a constant *is* that constant.  Everything else is a ``T``.
"""


class T(object):
    __slots__ = ('op', 'args', 'sort', 'tid', 'vars', '_smt')

    def __repr__(self):
        return smt(self)


_table = {}
_counter = [0]
EMPTY = frozenset()


def _mk(op, args, sort):
    key = (op, sort) + tuple((a.tid if isinstance(a, T) else ('k', type(a) is bool, a))
                        for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _counter[0] += 1
        t.tid = _counter[0]
        t._smt = None
        if op == 'var':
            t.vars = frozenset((t,))
        else:
            vs = EMPTY
            for a in args:
                if isinstance(a, T):
                    vs = vs | a.vars if vs else a.vars
            t.vars = vs
        _table[key] = t
    return t


def var(name, sort):
    return _mk('var', (name,), sort)


def not_(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'Bool')


def _nary(op, items, unit):
    out = []
    seen = set()
    stack = list(items)
    stack.reverse()
    while stack:
        a = stack.pop()
        if isinstance(a, bool):
            if a is unit:
                continue
            return not unit
        if a.op == op:
            stack.extend(reversed(a.args))
            continue
        if a.tid in seen:
            continue
        n = not_(a)
        if isinstance(n, T) and n.tid in seen:
            return not unit
        seen.add(a.tid)
        out.append(a)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return _mk(op, tuple(out), 'Bool')


def and_(*items):
    return _nary('and', items, True)


def or_(*items):
    return _nary('or', items, False)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    if a is b:
        return True
    return _mk('=', (a, b), 'Bool')


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if not isinstance(a, T) and not isinstance(b, T) and a == b and type(a) is type(b):
        return a
    sort = a.sort if isinstance(a, T) else ('Bool' if isinstance(a, bool) else 'Int')
    if sort == 'Bool':
        return or_(and_(c, a), and_(not_(c), b))
    return _mk('ite', (c, a, b), 'Int')


def eq(a, b):
    """Integer equality."""
    ia, ib = not isinstance(a, T), not isinstance(b, T)
    if ia and ib:
        return a == b
    if a is b:
        return True
    if ia:
        a, b = b, a
        ib = True
    if ib:
        if a.op == 'ite':
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == '+' and not isinstance(a.args[1], T):
            return eq(a.args[0], b - a.args[1])
    elif a.tid > b.tid:
        a, b = b, a
    return _mk('=', (a, b), 'Bool')


def le(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a <= b
    if a is b:
        return True
    return _mk('<=', (a, b), 'Bool')


def lt(a, b):
    return not_(le(b, a))


def add(a, b):
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a + b
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return a
        if a.op == '+' and not isinstance(a.args[1], T):
            return add(a.args[0], a.args[1] + b)
    elif b.op == '+' and not isinstance(b.args[1], T):
        return add(add(a, b.args[0]), b.args[1])
    elif a.op == '+' and not isinstance(a.args[1], T):
        return add(add(a.args[0], b), a.args[1])
    return _mk('+', (a, b), 'Int')


def mul(a, b):
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a * b
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return 0
        if b == 1:
            return a
    return _mk('*', (a, b), 'Int')


def sub(a, b):
    return add(a, mul(b, -1))


def floordiv(a, k):
    if not isinstance(a, T):
        return a // k
    return _mk('div', (a, k), 'Int')


def mod(a, k):
    if not isinstance(a, T):
        return a % k
    return _mk('mod', (a, k), 'Int')


def inset(c, ranges):
    """ranges: tuple of (lo, hi) inclusive, sorted, disjoint."""
    if not isinstance(c, T):
        for lo, hi in ranges:
            if lo <= c <= hi:
                return True
        return False
    if not ranges:
        return False
    if c.op == 'ite':
        return ite(c.args[0], inset(c.args[1], ranges), inset(c.args[2], ranges))
    if len(ranges) == 1 and ranges[0][0] == ranges[0][1]:
        return eq(c, ranges[0][0])
    return _mk('inset', (c, ranges), 'Bool')


def _num(n):
    if isinstance(n, bool):
        return 'true' if n else 'false'
    return str(n) if n >= 0 else '(- %d)' % -n


def smt(t):
    if not isinstance(t, T):
        return _num(t)
    s = t._smt
    if s is not None:
        return s
    op = t.op
    if op == 'var':
        s = '|%s %s|' % ('b' if t.sort == 'Bool' else 'i', t.args[0])
    elif op == 'inset':
        c = smt(t.args[0])
        parts = []
        for lo, hi in t.args[1]:
            if lo == hi:
                parts.append('(= %s %d)' % (c, lo))
            else:
                parts.append('(<= %d %s %d)' % (lo, c, hi))
        s = parts[0] if len(parts) == 1 else '(or %s)' % ' '.join(parts)
    else:
        s = '(%s %s)' % (op, ' '.join([smt(a) for a in t.args]))
    t._smt = s
    return s


def ev(t, m):
    """Evaluate under the assignment ``m`` (var term -> value)."""
    if not isinstance(t, T):
        return t
    op = t.op
    a = t.args
    if op == 'var':
        return m[t]
    if op == 'not':
        return not ev(a[0], m)
    if op == 'and':
        for x in a:
            if not ev(x, m):
                return False
        return True
    if op == 'or':
        for x in a:
            if ev(x, m):
                return True
        return False
    if op == '=':
        return ev(a[0], m) == ev(a[1], m)
    if op == '<=':
        return ev(a[0], m) <= ev(a[1], m)
    if op == 'inset':
        c = ev(a[0], m)
        for lo, hi in a[1]:
            if lo <= c <= hi:
                return True
        return False
    if op == '+':
        return ev(a[0], m) + ev(a[1], m)
    if op == '*':
        return ev(a[0], m) * ev(a[1], m)
    if op == 'ite':
        return ev(a[1], m) if ev(a[0], m) else ev(a[2], m)
    if op == 'div':
        return ev(a[0], m) // ev(a[1], m)
    if op == 'mod':
        return ev(a[0], m) % ev(a[1], m)
    raise AssertionError(op)
