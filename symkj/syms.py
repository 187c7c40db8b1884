"""Symbolic implementation of the scenario interface."""
import builtins
import random

from . import engine as eng
from . import models
from . import terms as tm
from .api import ANY, BaseS
from .symval import (SymBool, SymBytes, SymInt, SymStr, bterm, chars_of, equal_formula,
                     is_strish, mkbool, mkchars, chars_eq, Sym, SymQuarter, iterm, deep_conc)

_int, _str, _bool = builtins.int, builtins.str, builtins.bool


def concrete(x, model):
    if isinstance(x, SymStr):
        return x.under(model)
    if isinstance(x, (SymInt, SymBool)):
        return tm.ev(x.t, model)
    if isinstance(x, SymQuarter):
        return tm.ev(x.t, model) / 4
    if isinstance(x, SymBytes):
        return concrete(x.s, model).encode(x.encoding)
    t = type(x)
    if t in (list, tuple):
        return t([concrete(y, model) for y in x])
    if t is dict:
        return dict((concrete(k, model), concrete(v, model)) for k, v in x.items())
    return x


class SymS(BaseS):
    symbolic = True

    def __init__(self, kajiki, engine):
        BaseS.__init__(self, kajiki)
        self.e = engine
        self.rec = []            # (name, symbolic value)

    def values(self, model):
        out = {}
        for name, v in self.rec:
            out[name] = concrete(v, model)
        return out

    def str(self, name, lens=(0, 2), alphabet=ANY):
        name = self._name(name)
        lo, hi = lens
        if lo == hi:
            n = lo
        else:
            lv = self.e.new_var('len:' + name, 'Int', lo)
            self.e.assume(tm.and_(tm.le(lo, lv), tm.le(lv, hi)))
            n = self.e.concretise_int(lv)
        cs = []
        dflt = alphabet[0][0]
        for lo_, hi_ in alphabet:
            if lo_ <= 97 <= hi_:
                dflt = 97
        for i in range(n):
            c = self.e.new_var('%s[%d]' % (name, i), 'Int', dflt)
            self.e.assume(tm.inset(c, alphabet))
            cs.append(c)
        v = mkchars(cs)
        self.rec.append((name, v))
        return v

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.rec.append((name, lo))
            return lo
        t = self.e.new_var(name, 'Int', lo)
        self.e.assume(tm.and_(tm.le(lo, t), tm.le(t, hi)))
        v = SymInt(t)
        self.rec.append((name, v))
        return v

    def quarters(self, n):
        t = iterm(n)
        return t / 4 if isinstance(t, _int) else SymQuarter(t)

    def bool(self, name):
        name = self._name(name)
        v = SymBool(self.e.new_var(name, 'Bool', False))
        self.rec.append((name, v))
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.rec.append((self._name(name), 0))
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.e.concretise_int(i.t, cap=max(200, len(options)))]

    def assume(self, cond):
        self.e.assume(bterm(cond))

    def check(self, cond, msg, **detail):
        self.reach('assert')
        self.e.check(bterm(cond), msg, detail)

    def eq(self, got, want, msg):
        self.reach('assert')
        if is_strish(got) and is_strish(want):
            f = equal_formula(got, want)
            if f is not None:
                if f is True:
                    self.e.stats['asserts'] += 1
                    return
                if f is not False:
                    ans, m = self.e.query(tm.not_(f))
                    if ans == 'unsat':
                        self.e.stats['asserts'] += 1
                        return
                    if ans == 'sat':
                        a, b = concrete(got, m), concrete(want, m)
                        if a != b:
                            self.e.stats['asserts'] += 1
                            self.e._control(eng.Violation(
                                msg, m, {'got': a, 'want': b}))
            cond = chars_eq(chars_of(got), chars_of(want))
            self.e.check(cond, msg, {'got': got, 'want': want})
            return
        if models.real_type(got) is not models.real_type(want):
            self.e.check(False, msg, {'got': got, 'want': want})
        r = deep_eq(got, want)
        self.e.check(bterm(r), msg, {'got': got, 'want': want})

    def fail(self, msg, **detail):
        self.e.check(False, msg, detail)

    def fs(self):
        return SymFS()

    def is_true(self, x):
        return _bool(x)

    def randint_arbitrary(self, draws=4):
        """The next *draws* random numbers are arbitrary: either of the two smallest
        of their range."""
        left = [draws]

        def draw(a, b):
            if not left[0]:
                models.RANDINT[0] = None
                return models._rng.randint(a, b)
            left[0] -= 1
            return int(deep_conc(self.int('randint', a, min(b, a + 1)), 'randint'))
        models.RANDINT[0] = draw


def deep_eq(a, b):
    """Formula for equality of plain containers of symbolic values."""
    if models.real_type(a) is not models.real_type(b):
        return False
    t = type(a)
    if t in (list, tuple):
        if len(a) != len(b):
            return False
        return mkbool(tm.and_(*[bterm(deep_eq(x, y)) for x, y in zip(a, b)]))
    if t is dict:
        if len(a) != len(b):
            return False
        if list(a) != list(b):
            if set(a) != set(b):
                return False
        return mkbool(tm.and_(*[bterm(deep_eq(a[k], b[k])) for k in a]))
    r = a == b
    return r if not r is NotImplemented else a is b


class SymFS(object):
    """Files with symbolic content and modification times."""
    def __init__(self):
        self.root = models.VFS.prefix.rstrip('/')

    def path(self, rel):
        return self.root + '/' + rel

    def write(self, rel, content, mtime):
        models.VFS.files[self.path(rel)] = [content, mtime]

    def remove(self, rel):
        del models.VFS.files[self.path(rel)]

    def on_read(self, rel, fn):
        """fn is called once, right after the file's content was read."""
        models.VFS.on_read[self.path(rel)] = fn
