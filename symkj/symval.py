"""Symbolic values: SymBool, SymInt, SymStr (and SymBytes, its utf-8 image).

A SymStr is a sequence of elements: concrete ``str`` segments, one-character
integer terms, ``Choice`` (mutually exclusive, exhaustive guarded alternatives;
a merged state) and ``ReprEl`` (the Python repr of another symbolic string).
"""
import operator
import sys

from . import terms as tm
from .terms import T
from . import engine as eng

CONC_CAP = 3          # values tried when an operation has no symbolic model


def E():
    return eng.CUR


# ---------------------------------------------------------------- char classes
_class_cache = {}
MAXCP = 0x10FFFF


def ranges_of(pred, name):
    r = _class_cache.get(name)
    if r is None:
        out = []
        start = None
        for i in range(MAXCP + 1):
            if pred(chr(i)):
                if start is None:
                    start = i
            elif start is not None:
                out.append((start, i - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        r = _class_cache[name] = tuple(out)
    return r


def ws_ranges():
    return ranges_of(str.isspace, 'isspace')


LINE_ENDS = ((0x0a, 0x0d), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029))


def caller_site(depth=2):
    f = sys._getframe(depth)
    while f is not None and '/symkj/' in f.f_code.co_filename:
        f = f.f_back
    if f is None:
        return '?'
    return '%s:%d' % (f.f_code.co_filename, f.f_lineno)


# ---------------------------------------------------------------- booleans
class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(tm.iff(self.t, o.t))
        if isinstance(o, bool):
            return mkbool(tm.iff(self.t, o))
        if isinstance(o, (int, SymInt)):
            return SymInt(tm.ite(self.t, 1, 0)) == o
        if isinstance(o, float):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        return mkbool(tm.and_(self.t, bterm(o)))

    def __or__(self, o):
        return mkbool(tm.or_(self.t, bterm(o)))
    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(tm.not_(tm.iff(self.t, bterm(o))))
    __rxor__ = __xor__

    def __str__(self):
        return 'True' if self else 'False'
    __repr__ = __str__

    def _int(self):
        return SymInt(tm.ite(self.t, 1, 0))

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__


def mkbool(t):
    return t if isinstance(t, bool) else SymBool(t)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, T):
        return x
    return bool(x)


def sym_not(x):
    if isinstance(x, SymBool):
        return mkbool(tm.not_(x.t))
    return not x


# ---------------------------------------------------------------- integers
def iterm(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return tm.ite(x.t, 1, 0)
    return int(x)


def mkint(t):
    return t if isinstance(t, int) else SymInt(t)


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def conc(self):
        return E().concretise_int(self.t)

    def __bool__(self):
        return E().branch(tm.not_(tm.eq(self.t, 0)))

    def __index__(self):
        return self.conc()
    __int__ = __index__

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def _ok(self, o):
        return isinstance(o, (int, SymInt, SymBool))

    def __eq__(self, o):
        if isinstance(o, float):
            return self.conc() == o
        if not self._ok(o):
            return NotImplemented
        return mkbool(tm.eq(self.t, iterm(o)))

    def __ne__(self, o):
        if isinstance(o, float):
            return self.conc() != o
        if not self._ok(o):
            return NotImplemented
        return mkbool(tm.not_(tm.eq(self.t, iterm(o))))

    def _cmp(self, o, f, nf):
        if isinstance(o, float):
            return nf(self.conc(), o)
        if not self._ok(o):
            return NotImplemented
        return mkbool(f(self.t, iterm(o)))

    def __lt__(self, o):
        return self._cmp(o, tm.lt, operator.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le, operator.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a), operator.gt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a), operator.ge)

    def __add__(self, o):
        if not self._ok(o):
            return self.conc() + o if isinstance(o, float) else NotImplemented
        return mkint(tm.add(self.t, iterm(o)))
    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return mkint(tm.sub(self.t, iterm(o)))

    def __rsub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return mkint(tm.sub(iterm(o), self.t))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.conc()
        if not self._ok(o):
            return NotImplemented
        b = iterm(o)
        if isinstance(b, T):
            return mkint(tm.mul(self.t, SymInt(b).conc()))
        return mkint(tm.mul(self.t, b))
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(tm.mul(self.t, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(tm.mod(self.t, o))
        return self.conc() % o

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(tm.floordiv(self.t, o))
        return self.conc() // o

    def __rmod__(self, o):
        return o % self.conc()

    def __rfloordiv__(self, o):
        return o // self.conc()

    def __truediv__(self, o):
        return self.conc() / o

    def __and__(self, o):
        return self.conc() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.conc() | o
    __ror__ = __or__

    def __str__(self):
        return str(self.conc())
    __repr__ = __str__

    def bit_length(self):
        return self.conc().bit_length()

    def to_str(self):
        """str() of the integer, without pinning it when it is one digit."""
        e = E()
        d = tm.and_(tm.le(0, self.t), tm.le(self.t, 9))
        if e.branch(d):
            return SymStr([tm.add(self.t, 48)])
        return str(self.conc())


class SymQuarter(Sym):
    """A float that is a symbolic whole number of quarters (exactly representable)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def conc(self):
        return E().concretise_int(self.t) / 4

    @staticmethod
    def _of(o):
        if isinstance(o, SymQuarter):
            return o.t
        if isinstance(o, float):
            return int(o * 4) if o * 4 == int(o * 4) else None
        if isinstance(o, (int, SymInt, SymBool)):
            return tm.mul(iterm(o), 4) if isinstance(iterm(o), T) else iterm(o) * 4
        return None

    def _rel(self, o, f, nf):
        b = self._of(o)
        if b is None:
            return nf(self.conc(), o) if isinstance(o, float) else NotImplemented
        return mkbool(f(self.t, b))

    def __eq__(self, o):
        return self._rel(o, tm.eq, operator.eq)

    def __ne__(self, o):
        return self._rel(o, lambda a, b: tm.not_(tm.eq(a, b)), operator.ne)

    def __lt__(self, o):
        return self._rel(o, tm.lt, operator.lt)

    def __le__(self, o):
        return self._rel(o, tm.le, operator.le)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: tm.lt(b, a), operator.gt)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: tm.le(b, a), operator.ge)

    def __bool__(self):
        return E().branch(tm.not_(tm.eq(self.t, 0)))

    def __hash__(self):
        return hash(self.conc())

    def __add__(self, o):
        b = self._of(o)
        return self.conc() + o if b is None else SymQuarter(tm.add(self.t, b))
    __radd__ = __add__

    def __sub__(self, o):
        b = self._of(o)
        return self.conc() - o if b is None else SymQuarter(tm.sub(self.t, b))

    def __rsub__(self, o):
        b = self._of(o)
        return o - self.conc() if b is None else SymQuarter(tm.sub(b, self.t))

    def __mul__(self, o):
        return self.conc() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.conc() / o

    def __floordiv__(self, o):
        return SymQuarter(tm.mul(tm.floordiv(self.t, 4), 4)) if o == 1 else self.conc() // o

    def __mod__(self, o):
        return self.conc() % o

    def whole(self):
        return mkint(tm.floordiv(self.t, 4))         # all values are positive

    __floor__ = __trunc__ = whole

    def __int__(self):
        return int(self.conc())

    def __float__(self):
        return self.conc()

    def __round__(self, nd=None):
        return round(self.conc(), nd) if nd is not None else round(self.conc())

    def __str__(self):
        return str(self.conc())
    __repr__ = __str__


# ---------------------------------------------------------------- strings
class Choice(object):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts          # tuple of (guard, tuple of int|T)


class ReprEl(object):
    __slots__ = ('inner',)

    def __init__(self, inner):
        self.inner = inner


def els_of(s):
    if isinstance(s, SymStr):
        return s.els
    if isinstance(s, str):
        return [s] if s else []
    raise TypeError('expected str, got %r' % type(s).__name__)


def mkels(els):
    """Build a str or SymStr from elements, merging concrete runs."""
    out = []
    sym = False
    for x in els:
        if type(x) is str:
            if x:
                if out and type(out[-1]) is str:
                    out[-1] = out[-1] + x
                else:
                    out.append(x)
        elif type(x) is int:
            c = chr(x)
            if out and type(out[-1]) is str:
                out[-1] = out[-1] + c
            else:
                out.append(c)
        else:
            sym = True
            out.append(x)
    if not sym:
        return out[0] if out else ''
    return SymStr(out)


def mkchars(chars):
    """From a list of int|T characters."""
    out = []
    buf = []
    sym = False
    for c in chars:
        if type(c) is int:
            buf.append(chr(c))
        else:
            if buf:
                out.append(''.join(buf))
                buf = []
            sym = True
            out.append(c)
    if not sym:
        return ''.join(buf)
    if buf:
        out.append(''.join(buf))
    return SymStr(out)


def chars_of(s):
    if isinstance(s, SymStr):
        return s.chars()
    return [ord(c) for c in s]


def cat(parts):
    els = []
    for p in parts:
        els.extend(els_of(p))
    return mkels(els)


def is_strish(x):
    return isinstance(x, (str, SymStr))


def chars_eq(a, b):
    """Formula: two equal-length char lists are equal."""
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(a, b):
        t = tm.eq(x, y)
        if t is False:
            return False
        if t is not True:
            conj.append(t)
    return tm.and_(*conj)


def str_eq(a, b):
    """Formula for a == b (may fork to resolve merged states)."""
    ca, cb = chars_of(a), chars_of(b)
    return chars_eq(ca, cb)


def str_lt(a, b):
    n = min(len(a), len(b))
    f = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        f = tm.or_(tm.lt(a[i], b[i]), tm.and_(tm.eq(a[i], b[i]), f))
    return f


def concretise_str(s, why='?'):
    if not isinstance(s, SymStr):
        return s
    e = E()
    chars = s.chars()
    syms = [c for c in chars if isinstance(c, T)]
    if not syms:
        return mkchars(chars)
    key = ('conc', tuple(c.tid for c in syms))
    if all(e.must(tm.eq(c, tm.ev(c, e.model))) for c in syms):
        return ''.join(chr(tm.ev(c, e.model)) for c in chars)
    e.note_concretised(why if why != '?' else caller_site())
    while True:
        vals = e.picked(lambda vs: chars_eq(chars, vs),
                        [tm.ev(c, e.model) for c in chars])
        n = e.caps.get(key, 0)
        e.caps[key] = n + 1
        if e.branch(chars_eq(chars, vals), limit=CONC_CAP - n, pick=vals):
            return ''.join(map(chr, vals))


def _slice_bounds(n, start, end):
    start = 0 if start is None else operator.index(start)
    end = n if end is None else operator.index(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


class SymStr(Sym):
    __slots__ = ('els', '_chars')

    def __init__(self, els):
        self.els = els
        self._chars = None

    # -- structure
    def chars(self):
        c = self._chars
        if c is None:
            e = E()
            c = []
            for x in self.els:
                if type(x) is str:
                    c.extend(map(ord, x))
                elif isinstance(x, T):
                    c.append(x)
                elif isinstance(x, Choice):
                    alts = x.alts
                    for g, sub in alts[:-1]:
                        if e.branch(g):
                            c.extend(sub)
                            break
                    else:
                        c.extend(alts[-1][1])
                else:
                    c.extend(map(ord, repr(concretise_str(x.inner, 'repr'))))
            self._chars = c
            self.els = els_of(mkchars(c))
        return c

    def opaque(self):
        return self._chars is None and any(isinstance(x, ReprEl) for x in self.els)

    def units(self):
        """Characters, with the literals written by repr() left whole: these contain
        nothing but printable ASCII-or-printable characters, in particular no line break."""
        c = []
        for x in self.els:
            if isinstance(x, ReprEl):
                c.append(x)
            else:
                c.extend(chars_of(mkels([x])))
        return c

    def _spread(self, sub):
        """units(), if what is looked for cannot be inside a literal; else None."""
        if self.opaque() and type(sub) is str and sub and not any(ch.isprintable() for ch in sub):
            return self.units()
        return None

    def dbg(self):
        e = E()
        out = []
        for x in self.els:
            if type(x) is str:
                out.append(x)
            elif isinstance(x, T):
                out.append('<%s>' % x)
            elif isinstance(x, Choice):
                out.append('<choice %r>' % (x.alts,))
            else:
                out.append('<repr>')
        return ''.join(out)

    def under(self, model):
        """The concrete string under a model."""
        out = []
        for x in self.els:
            if type(x) is str:
                out.append(x)
            elif isinstance(x, T):
                out.append(chr(tm.ev(x, model)))
            elif isinstance(x, Choice):
                for g, sub in x.alts:
                    if tm.ev(g, model):
                        out.append(''.join(chr(tm.ev(c, model)) for c in sub))
                        break
            else:
                out.append(repr(x.inner.under(model)))
        return ''.join(out)

    # -- protocol
    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        for x in self.els:
            if type(x) is str or isinstance(x, (T, ReprEl)):
                return True
            if isinstance(x, Choice) and all(a[1] for a in x.alts):
                return True
        return len(self.chars()) > 0

    def __iter__(self):
        for c in self.chars():
            yield mkchars([c])

    def __getitem__(self, i):
        if self.opaque() and isinstance(i, slice) and type(i.start) is int and i.stop is None and i.step is None \
                and i.start >= 0 and type(self.els[0]) is str and i.start <= len(self.els[0]):
            return mkels([self.els[0][i.start:]] + list(self.els[1:]))
        c = self.chars()
        if isinstance(i, slice):
            def idx(v):
                return None if v is None else operator.index(v)
            return mkchars(c[slice(idx(i.start), idx(i.stop), idx(i.step))])
        i = operator.index(i)
        return mkchars([c[i]])

    def __add__(self, o):
        if not is_strish(o):
            return NotImplemented
        return mkels(list(self.els) + list(els_of(o)))

    def __radd__(self, o):
        if not is_strish(o):
            return NotImplemented
        return mkels(list(els_of(o)) + list(self.els))

    def __mul__(self, n):
        return mkels(list(self.els) * operator.index(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_strish(o):
            return NotImplemented
        if o is self:
            return True
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        if not is_strish(o):
            return NotImplemented
        return mkbool(str_lt(self.chars(), chars_of(o)))

    def __gt__(self, o):
        if not is_strish(o):
            return NotImplemented
        return mkbool(str_lt(chars_of(o), self.chars()))

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(concretise_str(self))

    def __str__(self):
        return concretise_str(self)

    def __repr__(self):
        return repr(concretise_str(self))

    def __format__(self, spec):
        return format(concretise_str(self), spec)

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        if not is_strish(sub):
            raise TypeError("'in <string>' requires string as left operand, not %s"
                            % type(sub).__name__)
        if type(sub) is str and len(sub) == 1:
            # decided without resolving merged states
            k = ord(sub)
            disj = []
            for x in self.els:
                if type(x) is str:
                    if sub in x:
                        return True
                elif isinstance(x, T):
                    disj.append(tm.eq(x, k))
                elif isinstance(x, Choice):
                    for g, s in x.alts:
                        disj.append(tm.and_(g, tm.or_(*[tm.eq(c, k) for c in s])))
                elif sub.isprintable():
                    break
            else:
                return mkbool(tm.or_(*disj))
        a, b = self.chars(), chars_of(sub)
        n = len(b)
        return mkbool(tm.or_(*[chars_eq(a[i:i + n], b)
                               for i in range(len(a) - n + 1)]))

    def __mod__(self, args):
        from . import models
        return models.percent(self, args)

    # -- str methods
    def find(self, sub, start=None, end=None):
        a, b = self.chars(), chars_of(sub)
        lo, hi = _slice_bounds(len(a), start, end)
        e = E()
        for i in range(lo, hi - len(b) + 1):
            if e.branch(chars_eq(a[i:i + len(b)], b)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        a, b = self.chars(), chars_of(sub)
        lo, hi = _slice_bounds(len(a), start, end)
        e = E()
        for i in range(hi - len(b), lo - 1, -1):
            if e.branch(chars_eq(a[i:i + len(b)], b)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        b = chars_of(sub)
        a = self._spread(sub) if start is None and end is None and len(b) == 1 else None
        a = [c for c in a if not isinstance(c, ReprEl)] if a is not None else self.chars()
        lo, hi = _slice_bounds(len(a), start, end)
        if len(b) == 1:
            total = 0
            for c in a[lo:hi]:
                total = tm.add(total, tm.ite(tm.eq(c, b[0]), 1, 0))
            return mkint(total)
        n = 0
        while True:
            i = self.find(sub, lo, hi)
            if i < 0:
                return n
            n += 1
            lo = i + max(1, len(b))

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return mkbool(tm.or_(*[bterm(self.startswith(p, start, end)) for p in pre]))
        if start is None and end is None and self.els and type(pre) is str and type(self.els[0]) is str:
            h = self.els[0]
            if len(h) >= len(pre) or not pre.startswith(h):
                return h.startswith(pre)
        a, b = self.chars(), chars_of(pre)
        lo, hi = _slice_bounds(len(a), start, end)
        if lo > len(a):
            return False
        a = a[lo:hi]
        return mkbool(chars_eq(a[:len(b)], b))

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return mkbool(tm.or_(*[bterm(self.endswith(p, start, end)) for p in suf]))
        if start is None and end is None and self.els and type(suf) is str and type(self.els[-1]) is str:
            h = self.els[-1]
            if len(h) >= len(suf) or not suf.endswith(h):
                return h.endswith(suf)
        a, b = self.chars(), chars_of(suf)
        lo, hi = _slice_bounds(len(a), start, end)
        a = a[lo:hi]
        if len(b) > len(a):
            return False
        return mkbool(chars_eq(a[len(a) - len(b):], b))

    def replace(self, old, new, count=-1):
        if not is_strish(old) or not is_strish(new):
            raise TypeError('replace() argument must be str')
        e = E()
        if type(old) is str and len(old) == 1 and count < 0:
            k = ord(old)
            newc = chars_of(new)
            out = []
            for x in self.els:
                if type(x) is str:
                    if old in x:
                        first = True
                        for part in x.split(old):
                            if not first:
                                out.extend(newc)
                            first = False
                            if part:
                                out.append(part)
                    else:
                        out.append(x)
                elif isinstance(x, T):
                    out.append(subst_char(x, k, newc))
                elif isinstance(x, Choice):
                    alts = []
                    for g, sub in x.alts:
                        alts.extend(subst_alt(g, sub, k, newc))
                    out.append(Choice(tuple(alts)))
                elif not old.isprintable():
                    out.append(x)
                else:
                    break
            else:
                return mkels(out)
        a, b = self.chars(), chars_of(old)
        n = chars_of(new)
        out = []
        i = 0
        done = 0
        if not b:
            return concretise_str(self).replace('', new, count)
        while i < len(a):
            if (count < 0 or done < count) and i + len(b) <= len(a) \
                    and e.branch(chars_eq(a[i:i + len(b)], b)):
                out.extend(n)
                i += len(b)
                done += 1
            else:
                out.append(a[i])
                i += 1
        return mkchars(out)

    def translate(self, table):
        out = []
        for x in self.els:
            if type(x) is str:
                out.append(x.translate(table))
            elif isinstance(x, T):
                out.append(translate_char(x, table))
            else:
                break
        else:
            return mkels(out)
        return mkels([translate_char(c, table) for c in self.chars()])

    def _strip(self, chars, left, right):
        if self.opaque() and (chars is None or type(chars) is str and not any(k in '\'"bu' for k in chars)):
            c = self.units()      # a literal starts and ends with a quote
        else:
            c = self.chars()
        e = E()
        if chars is None:
            r = ws_ranges()

            def test(x):
                return False if isinstance(x, ReprEl) else tm.inset(x, r)
        else:
            ks = chars_of(chars)

            def test(x):
                return False if isinstance(x, ReprEl) else tm.or_(*[tm.eq(x, k) for k in ks])
        lo, hi = 0, len(c)
        if left:
            while lo < hi and e.branch(test(c[lo])):
                lo += 1
        if right:
            while hi > lo and e.branch(test(c[hi - 1])):
                hi -= 1
        return mkchars(c[lo:hi])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        e = E()
        a = self._spread(sep)
        if a is not None and len(sep) == 1:
            k = ord(sep)
            out = [[]]
            for c in a:
                if not isinstance(c, ReprEl) and (maxsplit < 0 or len(out) <= maxsplit) and e.branch(tm.eq(c, k)):
                    out.append([])
                else:
                    out[-1].append(c)
            return [mkchars(x) for x in out]
        a = self.chars()
        if sep is None:
            r = ws_ranges()
            out = []
            i = 0
            while True:
                while i < len(a) and e.branch(tm.inset(a[i], r)):
                    i += 1
                if i >= len(a):
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkchars(a[i:])._strip(None, False, True)
                               if isinstance(mkchars(a[i:]), SymStr)
                               else mkchars(a[i:]).rstrip())
                    return out
                j = i
                while j < len(a) and not e.branch(tm.inset(a[j], r)):
                    j += 1
                out.append(mkchars(a[i:j]))
                i = j
        b = chars_of(sep)
        if not b:
            raise ValueError('empty separator')
        out = []
        last = i = 0
        while i + len(b) <= len(a):
            if (maxsplit < 0 or len(out) < maxsplit) and \
                    e.branch(chars_eq(a[i:i + len(b)], b)):
                out.append(mkchars(a[last:i]))
                i += len(b)
                last = i
            else:
                i += 1
        out.append(mkchars(a[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None:
            if maxsplit < 0:
                return self.split(sep)
            return concretise_str(self).rsplit(sep, maxsplit)
        out = []
        s = self
        while len(out) < maxsplit:
            i = s.rfind(sep) if is_strish(s) else -1
            if i < 0:
                break
            out.insert(0, s[i + len(sep):])
            s = s[:i]
        out.insert(0, s)
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        e = E()
        a = self.units() if self.opaque() else self.chars()
        out = []
        i = last = 0
        while i < len(a):
            if isinstance(a[i], ReprEl):
                i += 1
                continue
            if e.branch(tm.inset(a[i], LINE_ENDS)):
                j = i + 1
                if j < len(a) and not isinstance(a[j], ReprEl) and e.branch(tm.and_(tm.eq(a[i], 13), tm.eq(a[j], 10))):
                    j += 1
                out.append(mkchars(a[last:j] if keepends else a[last:i]))
                last = i = j
            else:
                i += 1
        if last < len(a):
            out.append(mkchars(a[last:]))
        return out

    def _case(self, name):
        f = getattr(str, name)
        e = E()
        out = []
        src = ((65, 90),) if name != 'upper' else ((97, 122),)
        d = 32 if name != 'upper' else -32
        for c in self.chars():
            if not isinstance(c, T):
                out.extend(map(ord, f(chr(c))))
                continue
            odd = ranges_of(lambda ch: ord(ch) > 127 and f(ch) != ch, 'odd-' + name)
            if e.branch(tm.inset(c, odd)):
                out.extend(map(ord, f(concretise_str(SymStr([c]), 'str.' + name))))
            else:
                out.append(tm.ite(tm.inset(c, src), tm.add(c, d), c))
        return mkchars(out)

    def lower(self):
        # str.lower() is context-dependent only for U+03A3 (final sigma), which is in `odd`
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def _all(self, name):
        c = self.chars()
        if not c:
            return False
        r = ranges_of(getattr(str, name), name)
        return mkbool(tm.and_(*[tm.inset(x, r) for x in c]))

    def isspace(self):
        return self._all('isspace')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        c = self.chars()
        r = ranges_of(str.isprintable, 'isprintable')
        return mkbool(tm.and_(*[tm.inset(x, r) for x in c]))

    def isidentifier(self):
        c = self.chars()
        if not c:
            return False
        s = ranges_of(str.isidentifier, 'idstart')
        k = ranges_of(lambda ch: ('a' + ch).isidentifier(), 'idcont')
        return mkbool(tm.and_(tm.inset(c[0], s), *[tm.inset(x, k) for x in c[1:]]))

    def join(self, it):
        from . import models
        return models.join(self, it)

    def format(self, *a, **k):
        from . import models
        return models.str_format(concretise_str(self), *a, **k)

    def encode(self, encoding='utf-8', errors='strict'):
        return SymBytes(self, encoding)

    def __getattr__(self, name):
        # any other str method: pin the value
        m = getattr(str, name, None)
        if m is None or name.startswith('__'):
            raise AttributeError(name)
        s = concretise_str(self, 'str.' + name)
        return getattr(s, name)


def subst_char(c, k, newc):
    e = E()
    t = tm.eq(c, k)
    m = e.must(t)
    if m is False:
        return c
    if m is True:
        return Choice(((True, tuple(newc)),))
    return Choice(((t, tuple(newc)), (tm.not_(t), (c,))))


def subst_alt(g, sub, k, newc):
    alts = [(g, ())]
    for c in sub:
        t = tm.eq(c, k)
        nxt = []
        for h, pre in alts:
            if t is False:
                nxt.append((h, pre + (c,)))
            elif t is True:
                nxt.append((h, pre + tuple(newc)))
            else:
                a, b = tm.and_(h, t), tm.and_(h, tm.not_(t))
                if a is not False:
                    nxt.append((a, pre + tuple(newc)))
                if b is not False:
                    nxt.append((b, pre + (c,)))
        alts = nxt
    return alts


def translate_char(c, table):
    if not isinstance(c, T):
        return chr(c).translate(table)
    if not hasattr(table, 'items'):
        return chr(ord(concretise_str(SymStr([c]), 'translate'))).translate(table)
    alts = []
    rest = []
    for k, v in table.items():
        t = tm.eq(c, k)
        if E().must(t) is False:
            continue
        rest.append(tm.not_(t))
        if v is None:
            v = ''
        elif isinstance(v, int):
            v = chr(v)
        alts.append((t, tuple(chars_of(v))))
    if not alts:
        return c
    alts.append((tm.and_(*rest), (c,)))
    return Choice(tuple(alts))


class SymBytes(Sym):
    """The encoding of a symbolic string; only decode() looks inside."""
    __slots__ = ('s', 'encoding')

    def __init__(self, s, encoding):
        self.s = s
        self.encoding = encoding.lower().replace('_', '-')

    def conc(self):
        return concretise_str(self.s, 'bytes').encode(self.encoding)

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') == self.encoding:
            return self.s
        return self.conc().decode(encoding, errors)

    def __len__(self):
        return len(self.conc())

    def __eq__(self, o):
        if isinstance(o, SymBytes) and o.encoding == self.encoding:
            return self.s == o.s
        if isinstance(o, bytes):
            return self.conc() == o
        return NotImplemented

    def __hash__(self):
        return hash(self.conc())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.conc(), name)


SYM = (SymBool, SymInt, SymStr, SymBytes)


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=2):
    if isinstance(x, Sym):
        return True
    if depth:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            for y in x:
                if has_sym(y, depth - 1):
                    return True
        elif t is dict:
            for k, v in x.items():
                if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                    return True
    return False


def deep_conc(x, why='?', depth=3):
    """Pin every symbolic value inside x."""
    if isinstance(x, SymStr):
        return concretise_str(x, why)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (SymInt, SymQuarter)):
        return x.conc()
    if isinstance(x, SymBytes):
        return x.conc()
    if depth and has_sym(x, depth):
        t = type(x)
        if t in (list, tuple, set, frozenset):
            return t([deep_conc(y, why, depth - 1) for y in x])
        if t is dict:
            return dict((deep_conc(k, why, depth - 1), deep_conc(v, why, depth - 1))
                        for k, v in x.items())
    return x


# ---------------------------------------------------------------- final equality
def equal_formula(a, b):
    """(formula, exact): formula for a == b without resolving merged states when
    the elements line up; exact is False when they do not line up."""
    ea, eb = list(els_of(a)), list(els_of(b))

    def expand(els):
        out = []
        for x in els:
            if type(x) is str:
                out.extend(map(ord, x))
            elif isinstance(x, Choice) and len(x.alts) == 1:
                out.extend(x.alts[0][1])
            elif isinstance(x, ReprEl):
                return None
            else:
                out.append(x)
        return out
    xa, xb = expand(ea), expand(eb)
    if xa is None or xb is None or len(xa) != len(xb):
        return None
    conj = []
    for x, y in zip(xa, xb):
        cx, cy = isinstance(x, Choice), isinstance(y, Choice)
        if not cx and not cy:
            t = tm.eq(x, y)
        else:
            ax = x.alts if cx else ((True, (x,)),)
            ay = y.alts if cy else ((True, (y,)),)
            parts = []
            for g, s in ax:
                for h, r in ay:
                    parts.append(tm.implies(tm.and_(g, h), chars_eq(list(s), list(r))))
            t = tm.and_(*parts)
        if t is not True:
            conj.append(t)
    return tm.and_(*conj)
