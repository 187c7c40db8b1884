"""Models of builtins for symbolic arguments, and the hooks instrumented code calls."""
import ast
import builtins
import codecs
import functools
import html
import io
import itertools
import os
import pathlib
import random
import re
import sys
import types

from . import engine as eng
from . import symre
from . import terms as tm
from .terms import T
from .symval import (Sym, SymBool, SymBytes, SymInt, SymQuarter, SymStr, ReprEl, Choice, bterm, cat,
                     chars_eq, chars_of, concretise_str, deep_conc, has_sym, is_strish,
                     mkbool, mkchars, mkels, els_of, mkint, sym_not, is_sym, caller_site)

MARK = '__sx__'          # in the globals of every instrumented module

_str = str
_isinstance = isinstance
_type = type


# ---------------------------------------------------------------- str() and friends
def to_str(*a, **k):
    if k or len(a) != 1:
        return str(*deep_conc(list(a)), **k)
    x = a[0]
    if _isinstance(x, SymStr):
        return x
    if _isinstance(x, SymInt):
        return x.to_str()
    if _isinstance(x, SymBool):
        return 'True' if x else 'False'
    if _isinstance(x, SymBytes):
        return str(x.conc())
    t = _type(x)
    if t in (str, int, bool, float, bytes):
        return str(x)
    if t in (list, tuple, dict, set, frozenset):
        return str(deep_conc(x, 'str(container)'))
    m = getattr(t, '__str__', None)
    if _isinstance(m, types.FunctionType) and not native_code(m):
        r = m(x)
        if not is_strish(r):
            raise TypeError('__str__ returned non-string (type %s)' % _type(r).__name__)
        return r
    if _isinstance(x, BaseException):
        if any(has_sym(y) for y in x.args):
            if len(x.args) == 1:
                return to_str(x.args[0])
            return str(deep_conc(x.args, 'str(exc)'))
    return str(x)


def to_repr(x):
    if _isinstance(x, SymStr):
        return SymStr([ReprEl(x)])
    if _isinstance(x, Sym):
        return repr(deep_conc(x))
    t = _type(x)
    if t in (list, tuple, dict, set, frozenset) and has_sym(x, 3):
        if t in (list, tuple):
            parts = [to_repr(y) for y in x]
            inner = join(', ', parts)
            if t is list:
                return cat(['[', inner, ']'])
            return cat(['(', inner, ',)' if len(x) == 1 else ')'])
        return repr(deep_conc(x, 'repr(container)'))
    m = getattr(t, '__repr__', None)
    if _isinstance(m, types.FunctionType):
        return m(x)
    return repr(x)


def join(sep, it):
    parts = list(it)
    out = []
    els = []
    first = True
    for i, p in enumerate(parts):
        if not is_strish(p):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (i, real_type(p).__name__))
        if not first:
            els.extend(els_of(sep))
        first = False
        els.extend(els_of(p))
    return mkels(els)


_fmt = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?'
                  r'(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def percent(fmt, args):
    if _isinstance(fmt, SymStr):
        # a symbolic format string: only safe to interpret when pinned
        fmt = concretise_str(fmt, '%-format string')
    if not is_strish(fmt):
        return deep_conc(fmt) % deep_conc(args)
    mapping = None
    if _type(args) is tuple:
        seq = list(args)
    elif hasattr(args, 'keys') and not is_sym(args):
        mapping = args
        seq = [args]
    else:
        seq = [args]
    out = []
    pos = 0
    n = 0
    used_map = False
    for m in _fmt.finditer(fmt):
        if m.start() < pos:
            continue
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('width') == '*' or m.group('prec') == '*':
            return fmt % deep_conc(args, '%*')
        if m.group('key') is not None:
            if mapping is None:
                raise TypeError('format requires a mapping')
            v = mapping[m.group('key')]
            used_map = True
        else:
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[n]
            n += 1
        plain = not (m.group('flags') or m.group('width') or m.group('prec'))
        if plain and conv == 's':
            out.append(to_str(v))
        elif plain and conv == 'r':
            out.append(to_repr(v))
        elif plain and conv in 'di' and _isinstance(v, (SymInt, SymBool)):
            out.append(to_str(v if _isinstance(v, SymInt) else v._int()))
        elif plain and conv == 'c' and is_sym(v):
            out.append(v if _isinstance(v, SymStr) else chr_(v))
        else:
            spec = '%' + (m.group('flags') or '') + (m.group('width') or '') + \
                ('.' + m.group('prec') if m.group('prec') else '') + conv
            if conv in 'sr' and not m.group('prec') and not is_sym(v) \
                    and _isinstance(getattr(_type(v), '__str__', None), types.FunctionType):
                v = to_str(v) if conv == 's' else to_repr(v)
                spec = spec[:-1] + 's'
            out.append(spec % (deep_conc(v, '%-format'),))
    out.append(fmt[pos:])
    if n < len(seq) and mapping is None and not used_map:
        raise TypeError('not all arguments converted during string formatting')
    return cat(out)


def mod(a, b):
    ta = _type(a)
    if ta is str:
        if _type(b) in (int, float, bool, bytes):
            return a % b
        return percent(a, b)
    return a % b


def imod(a, b):
    return mod(a, b)


_brace = re.compile(r'\{\{|\}\}|\{(?P<name>[^{}!:]*)(?:!(?P<conv>[rsa]))?(?::(?P<spec>[^{}]*))?\}')


def str_format(fmt, /, *args, **kw):
    if not any(has_sym(a) for a in args) and not any(has_sym(v) for v in kw.values()):
        needs = any(_isinstance(getattr(_type(a), '__str__', None), types.FunctionType)
                    for a in list(args) + list(kw.values()))
        if not needs:
            return fmt.format(*args, **kw)
    out = []
    pos = 0
    auto = 0
    for m in _brace.finditer(fmt):
        lit = fmt[pos:m.start()]
        out.append(lit)
        pos = m.end()
        if m.group() in ('{{', '}}'):
            out.append(m.group()[0])
            continue
        name = m.group('name')
        if name == '':
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name.isidentifier():
            v = kw[name]
        else:
            return fmt.format(*deep_conc(args), **deep_conc(kw))
        out.append(fmt_value(v, m.group('conv'), m.group('spec') or ''))
    out.append(fmt[pos:])
    return cat(out)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = to_repr(v)
    elif conv == 's':
        v = to_str(v)
    elif conv == 'a':
        v = ascii(deep_conc(v))
    if spec == '':
        if is_sym(v) or _isinstance(getattr(_type(v), '__str__', None), types.FunctionType):
            return to_str(v)
        return format(v)
    return format(deep_conc(v, 'format spec'), deep_conc(spec))


def fstr(parts):
    """parts: list of str | (value, conv, spec)"""
    out = []
    for p in parts:
        if _type(p) is tuple:
            out.append(fmt_value(*p))
        else:
            out.append(p)
    return cat(out)


# ---------------------------------------------------------------- type tests
def real_type(x):
    t = _type(x)
    if t is SymStr:
        return str
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if t is SymQuarter:
        return float
    if t is SymBytes:
        return bytes
    return t


def isinstance_(x, c):
    if _isinstance(x, Sym):
        return issubclass(real_type(x), c)
    return _isinstance(x, c)


def type_(*a, **k):
    if len(a) == 1 and not k:
        return real_type(a[0])
    return _type(*a, **k)


# ---------------------------------------------------------------- containers
def getitem(o, i):
    if _isinstance(i, Sym):
        t = _type(o)
        if t is dict or _isinstance(o, dict):
            found, v = dict_lookup(o, i)
            if found:
                return v
            m = getattr(_type(o), '__missing__', None)
            if m is not None:
                return m(o, deep_conc(i, 'dict missing'))
            raise KeyError(i)
        if t in (str, list, tuple, bytes):
            i = deep_conc(i, 'index')
    elif _type(i) is slice and has_sym((i.start, i.stop, i.step)):
        i = slice(*deep_conc((i.start, i.stop, i.step)))
    return o[i]


def dict_lookup(d, key):
    """Fork over which existing key equals the symbolic key."""
    e = eng.CUR
    if _isinstance(key, SymStr):
        n = len(key)                   # resolves merged states
        for k in list(d):
            if _isinstance(k, SymStr):
                if e.branch(bterm(k == key)):
                    return True, d[k]
            elif _type(k) is str and len(k) == n:
                if e.branch(bterm(key == k)):
                    return True, d[k]
        return False, None
    key = deep_conc(key, 'dict key')
    if key in d:
        return True, d[key]
    return False, None


def in_(x, c):
    if _isinstance(c, SymStr):
        return c.contains(x)
    if _isinstance(x, Sym):
        t = _type(c)
        if t is str:
            if not _isinstance(x, SymStr):
                raise TypeError("'in <string>' requires string as left operand, not %s"
                                % real_type(x).__name__)
            xs = x.chars()
            cs = chars_of(c)
            n = len(xs)
            return mkbool(tm.or_(*[chars_eq(xs, cs[i:i + n])
                                   for i in range(len(cs) - n + 1)]))
        if t in (set, frozenset, dict) or _isinstance(c, (dict, set, frozenset)) \
                or t in (list, tuple, _type({}.keys())):
            disj = []
            n = len(x) if _isinstance(x, SymStr) else None
            for k in c:
                if n is not None:
                    if not is_strish(k) or (_type(k) is str and len(k) != n):
                        continue
                r = x == k
                if r is NotImplemented:
                    continue
                r = bterm(r)
                if r is True:
                    return True
                disj.append(r)
            return mkbool(tm.or_(*disj))
        if t is range:
            return deep_conc(x) in c
    return x in c


def not_in(x, c):
    return sym_not(in_(x, c))


def dict_(*a, **k):
    return dict(*a, **k)


# ---------------------------------------------------------------- scalars
def int_(*a, **k):
    if len(a) == 1 and not k and _isinstance(a[0], SymInt):
        return a[0]
    if len(a) == 1 and not k and _isinstance(a[0], SymBool):
        return a[0]._int()
    if len(a) == 1 and not k and _isinstance(a[0], SymQuarter):
        return a[0].whole()
    if a and _isinstance(a[0], SymStr):
        base = deep_conc(a[1]) if len(a) > 1 else k.get('base', 10)
        return int_of_str(a[0], base)
    return int(*deep_conc(list(a)), **k)


def int_of_str(s, base):
    """int(text, base) for plain ASCII digit strings; anything else is pinned."""
    e = eng.CUR
    if base not in (10, 16) or not (0 < len(s) <= 6):
        return int(concretise_str(s, 'int(str)'), base)
    total = 0
    for c in s.chars():
        if e.branch(tm.inset(c, ((48, 57),))):
            d = tm.add(c, -48)
        elif base == 16 and e.branch(tm.inset(c, ((97, 102),))):
            d = tm.add(c, -87)
        elif base == 16 and e.branch(tm.inset(c, ((65, 70),))):
            d = tm.add(c, -55)
        else:
            return int(concretise_str(s, 'int(str)'), base)
        total = tm.add(tm.mul(total, base), d)
    return mkint(total)


def bool_(*a):
    if not a:
        return False
    x = a[0]
    if _isinstance(x, SymBool):
        return x
    return bool(x)


def chr_(i):
    if _isinstance(i, SymInt):
        e = eng.CUR
        if not e.branch(tm.and_(tm.le(0, i.t), tm.le(i.t, 0x10FFFF))):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr([i.t])
    return chr(i)


def ord_(c):
    if _isinstance(c, SymStr):
        x = c.chars()
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return mkint(x[0])
    return ord(c)


def abs_(x):
    return abs(x)


def print_(*a, **k):
    if any(has_sym(x) for x in a):
        return None
    if not PRINT:
        return None
    return print(*a, **k)


PRINT = False


def map_(f, *its):
    return map(wrap_callable(f), *its)


def filter_(f, it):
    return filter(None if f is None else wrap_callable(f), it)


def wrap_callable(f):
    """A builtin handed to native code as a callback must still go through the hooks."""
    if f is None or _type(f) is types.FunctionType and f not in FUNC and not native_code(f):
        return f
    return lambda *a, **k: call(f, *a, **k)


def sorted_(it, key=None, reverse=False):
    return sorted(it, key=None if key is None else wrap_callable(key), reverse=reverse)


def reduce_(f, *a):
    return functools.reduce(wrap_callable(f), *a)


def html_escape(s, quote=True):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if quote:
        s = s.replace('"', '&quot;').replace("'", '&#x27;')
    return s


def range_(*a):
    return range(*deep_conc(list(a), 'range'))


# ---------------------------------------------------------------- code objects
def _placeholders(src):
    """A symbolic program text: repr() pieces become names bound to the value they
    denote (eval(repr(s)) == s); anything else symbolic is pinned."""
    out = []
    for x in els_of(src):
        if _type(x) is str:
            out.append(x)
        elif _isinstance(x, ReprEl):
            n = len(SXV)
            SXV.append(x.inner)
            out.append('__sxv__[%d]' % n)
        elif _isinstance(x, T):
            out.append(concretise_str(SymStr([x]), 'exec source'))
        else:
            out.append(concretise_str(SymStr([x]), 'exec source'))
    return ''.join(out)


SXV = []


def exec_(code, *ns):
    from . import instrument
    if _isinstance(code, (SymStr, str)):
        src = _placeholders(code)
        code = instrument.compile_source(src, '<string>', 'exec')
    exec(code, *ns)


def eval_(code, *ns):
    from . import instrument
    if _isinstance(code, (SymStr, str)):
        src = _placeholders(code)
        code = instrument.compile_source(src.lstrip(' \t'), '<string>', 'eval')
    return eval(code, *ns)


def compile_(src, filename='<string>', mode='exec', *a, **k):
    from . import instrument
    if _isinstance(src, SymStr):
        e = eng.CUR
        els = els_of(src)
        chars = src.chars() if not any(_isinstance(x, ReprEl) for x in els) else None
        if chars is not None and mode == 'eval':
            # Model of the tokenizer's contract: the first unmatched closing brace in a
            # concrete prefix is the error, whatever text follows it.
            n = 0
            while n < len(chars) and _type(chars[n]) is int:
                n += 1
            prefix = mkchars(chars[:n])
            i = prefix.find('}')
            while i >= 0:
                try:
                    compile(prefix[:i + 1], filename, mode)
                except SyntaxError as se:
                    if 'unmatched' in (se.msg or '') and _err_index(prefix, se) == i:
                        raise
                except Exception:
                    pass
                i = prefix.find('}', i + 1)
        src = _placeholders(src)
        k.pop('dont_inherit', None)
        return instrument.compile_source(src, deep_conc(filename), mode)
    if mode == 'eval' or not _isinstance(src, str):
        return compile(src, deep_conc(filename), mode, *a, **k)
    return instrument.compile_source(src, filename, mode)


def _err_index(text, se):
    lines = [l + '\n' for l in text.split('\n')]
    return sum(len(l) for l in lines[:se.lineno - 1]) + (se.offset or 0) - 1


# ---------------------------------------------------------------- i/o
class SymBytesIO(object):
    """A byte or text stream over symbolic content."""
    def __init__(self, data=''):
        self.data = data
        self.done = False

    def read(self, n=-1):
        if self.done or n == 0:
            return self.data[:0] if not _isinstance(self.data, SymBytes) else b''
        self.done = True
        return self.data

    def getvalue(self):
        return self.data

    def seek(self, *a):
        self.done = False

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def bytesio(*a):
    if a and is_sym(a[0]):
        return SymBytesIO(a[0])
    return io.BytesIO(*a)


def stringio(*a):
    if a and is_sym(a[0]):
        return SymBytesIO(a[0])
    return SymStringIO(*a)


class SymStringIO(io.StringIO):
    """A text stream that symbolic text may be appended to."""
    parts = None

    def write(self, x):
        if self.parts is None:
            if not is_sym(x):
                return io.StringIO.write(self, x)
            end = len(io.StringIO.getvalue(self))
            if self.tell() != end:
                x = deep_conc(x, 'StringIO.write')
                return io.StringIO.write(self, x)
            self.parts = [io.StringIO.getvalue(self)]
        self.parts.append(x)     # (the count it returns is not modelled)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        if self.parts is None:
            return io.StringIO.getvalue(self)
        return join('', self.parts)

    def read(self, n=-1):
        if self.parts is None:
            return io.StringIO.read(self, n)
        if getattr(self, 'rewound', False):
            self.rewound = False
            return self.getvalue()
        return ''

    def seek(self, *a):
        if self.parts is None:
            return io.StringIO.seek(self, *a)
        self.rewound = a[0] == 0 and a[1:] in ((), (0,))
        return 0


def shlex_split(s, *a, **k):
    import shlex
    return shlex.split(deep_conc(s, 'shlex'), *a, **k)


class VFS(object):
    """Virtual files (symbolic modification times and content) under one prefix."""
    prefix = '/vfs-symkj/'
    files = {}      # path -> [content, mtime]

    on_read = {}    # path -> function called after the content was taken

    @classmethod
    def reset(cls):
        cls.files = {}
        cls.on_read = {}

    @classmethod
    def mine(cls, p):
        if _isinstance(p, pathlib.PurePath):
            p = str(p)
        return _type(p) is str and (p.startswith(cls.prefix) or p + '/' == cls.prefix)

    @classmethod
    def norm(cls, p):
        return os.path.normpath(str(p))


class VStat(object):
    def __init__(self, mtime):
        self.st_mtime = mtime
        self.st_size = 1
        self.st_mode = 0o100644

    @property
    def st_mtime_ns(self):
        m = self.st_mtime
        return SymInt(m.t) * 250000000 if _isinstance(m, SymQuarter) else m * 1000000000

    def __getitem__(self, i):
        if i == 8:
            m = self.st_mtime
            return m.whole() if _isinstance(m, SymQuarter) else m
        raise IndexError(i)


def _vfs(real, virtual):
    def f(p, *a, **k):
        if VFS.mine(p):
            return virtual(VFS.norm(p), *a, **k)
        return real(deep_conc(p, 'path'), *a, **k)
    return f


def _vstat(p, *a, **k):
    if p not in VFS.files:
        raise FileNotFoundError(2, 'No such file or directory', p)
    return VStat(VFS.files[p][1])


def _isdir(p):
    return any(f.startswith(p.rstrip('/') + '/') for f in VFS.files)


def _vread(p):
    if p not in VFS.files:
        if _isdir(p):
            raise IsADirectoryError(21, 'Is a directory', p)
        raise FileNotFoundError(2, 'No such file or directory', p)
    c = VFS.files[p][0]
    f = VFS.on_read.pop(p, None)
    if f is not None:
        f()
    return c


def _vbytes(c):
    return c if _isinstance(c, bytes) else c.encode('utf-8')


def _vtext(c, encoding, newline=''):
    if encoding is None:
        encoding = 'utf-8'
    if _isinstance(c, bytes):
        c = c.decode(encoding)
    elif codecs.lookup(encoding).name != 'utf-8':
        c = deep_conc(c, 'encoding').encode('utf-8').decode(encoding)
    if newline is None:
        c = c.replace('\r\n', '\n').replace('\r', '\n')
    return c


def _vopen(p, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    c = _vread(p)
    if 'b' in mode:
        return bytesio(_vbytes(c))
    return SymBytesIO(_vtext(c, encoding, newline))


def _vcopen(p, mode='r', encoding=None, errors='strict', buffering=-1):
    c = _vread(p)
    if encoding is None:     # codecs.open without an encoding is open()
        return _vopen(p, mode)
    return SymBytesIO(_vtext(c, encoding))


def path_method(s, name, a, k):
    """Methods of pathlib.Path on virtual files."""
    p = VFS.norm(s)
    if name == 'exists':
        return p in VFS.files or _isdir(p)
    if name == 'is_file':
        return p in VFS.files
    if name == 'is_dir':
        return _isdir(p)
    if name in ('stat', 'lstat'):
        return _vstat(p)
    if name == 'open':
        return _vopen(p, *a, **k)
    if name == 'read_text':
        return _vopen(p, 'r', -1, *a, **k).read()
    if name == 'read_bytes':
        return _vopen(p, 'rb').read()
    return getattr(s, name)(*a, **k)


def vlistdir(p='.'):
    base = p.rstrip('/') + '/'
    return sorted(set(f[len(base):].split('/')[0] for f in VFS.files if f.startswith(base)))


# ---------------------------------------------------------------- randomness
RANDINT = [None]         # None: a fixed per-path sequence; else arbitrary values
_rng = random.Random(0)


def random_method(s, name, a, k):
    f = RANDINT[0]
    if f is not None:
        if name == 'randint':
            return f(*deep_conc(list(a)))
        if name == 'randrange':
            a = deep_conc(list(a))
            return f(0, a[0] - 1) if len(a) == 1 else f(a[0], a[1] - 1)
        if name == 'choice':
            return a[0][deep_conc(f(0, len(a[0]) - 1))]
        if name == 'getrandbits':
            return f(0, (1 << a[0]) - 1)
    return getattr(_rng, name)(*deep_conc(list(a)), **deep_conc(k))


# ---------------------------------------------------------------- the call hook
FUNC = {}                # callable -> model taking the same arguments; always used
SYMFUNC = {}             # callable -> model used only when an argument is symbolic
TRANSPARENT = set()      # native callables that work on symbolic values by protocol


def _reg():
    b = builtins
    FUNC.update({
        b.str: to_str, b.repr: to_repr, b.isinstance: isinstance_, b.type: type_,
        b.map: map_, b.filter: filter_, b.print: print_, b.exec: exec_, b.eval: eval_,
        b.compile: compile_, b.sorted: sorted_, functools.reduce: reduce_,
        os.stat: _vfs(os.stat, _vstat),
        os.path.exists: _vfs(os.path.exists, lambda p: p in VFS.files or _isdir(p)),
        os.path.isfile: _vfs(os.path.isfile, lambda p: p in VFS.files),
        os.path.isdir: _vfs(os.path.isdir, _isdir),
        os.path.getmtime: _vfs(os.path.getmtime, lambda p: _vstat(p).st_mtime),
        os.listdir: _vfs(os.listdir, vlistdir),
        os.access: _vfs(os.access, lambda p, m: p in VFS.files),
        b.open: _vfs(b.open, _vopen), codecs.open: _vfs(codecs.open, _vcopen),
        io.BytesIO: bytesio, io.StringIO: stringio,
    })
    SYMFUNC.update({
        b.int: int_, b.bool: bool_, b.chr: chr_, b.ord: ord_, b.range: range_,
        html.escape: html_escape,
    })
    for n in ('len list tuple set frozenset dict min max sum any all iter next enumerate zip '
              'reversed id callable hasattr setattr getattr abs divmod slice object super '
              'staticmethod classmethod property hash delattr').split():
        TRANSPARENT.add(getattr(b, n))
    TRANSPARENT.update([itertools.chain, itertools.islice, itertools.count, itertools.tee,
                        itertools.takewhile, itertools.dropwhile, itertools.groupby,
                        itertools.repeat, itertools.starmap, itertools.zip_longest,
                        itertools.accumulate, itertools.chain.from_iterable])
    import collections
    TRANSPARENT.update([collections.deque, collections.OrderedDict, collections.defaultdict,
                        functools.partial, types.FunctionType, types.MethodType,
                        types.SimpleNamespace])


_reg()

RE_FUNCS = dict((getattr(re, n), n) for n in
                'search match fullmatch finditer findall split sub subn'.split())
PATTERN = _type(re.compile(''))
MATCH = _type(re.match('', ''))
METHOD = types.MethodType
BUILTIN = _type(len)

_str_methods_native_ok = ()


def str_method(self, name, a, k):
    """A method of a real str called with a symbolic argument."""
    if name == 'join':
        return join(self, *a)
    if name == 'format':
        return str_format(self, *a, **k)
    if name in ('replace', 'find', 'rfind', 'index', 'rindex', 'count', 'startswith',
                'endswith', 'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip',
                'rstrip', '__add__', '__eq__', '__ne__', '__lt__', '__gt__', '__le__',
                '__ge__'):
        return getattr(SymStr([self] if self else []), name)(*a, **k)
    if name == '__contains__':
        return in_(a[0], self)
    if name == '__mod__':
        return percent(self, *a)
    return getattr(self, name)(*deep_conc(list(a), 'str.' + name), **deep_conc(k))


def dict_method(self, name, a, k):
    if name == 'get':
        if len(a) == 2 and a[0] is a[1] and _isinstance(a[0], SymStr) and len(self) <= 24 \
                and len(a[0].els) == 1 and _isinstance(a[0].els[0], T) \
                and all(_type(x) is str and _type(y) is str for x, y in self.items()):
            # table.get(char, char): no need to fork
            return a[0].translate(dict((ord(x), y) for x, y in self.items() if len(x) == 1))
        found, v = dict_lookup(self, a[0])
        return v if found else (a[1] if len(a) > 1 else None)
    if name == '__contains__':
        return in_(a[0], self)
    if name == '__getitem__':
        return getitem(self, a[0])
    if name in ('setdefault', 'pop'):
        found, v = dict_lookup(self, a[0])
        if found:
            if name == 'pop':
                for kk in list(self):
                    if self[kk] is v and bool(kk == a[0]):
                        del self[kk]
                        break
            return v
        if name == 'pop':
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
    return getattr(self, name)(*a, **k)


def _any_sym(a, k):
    for x in a:
        if _isinstance(x, Sym):
            return True
    for x in k.values():
        if _isinstance(x, Sym):
            return True
    return False


def re_call(pat, name, a, k):
    if name == 'scanner':        # PyPy's name for finditer
        name = 'finditer'
    if name in ('sub', 'subn'):
        repl, string = a[0], a[1] if len(a) > 1 else k['string']
        count = a[2] if len(a) > 2 else k.get('count', 0)
        if _isinstance(string, SymStr) or callable(repl) or is_sym(repl):
            if not _isinstance(string, SymStr):
                # a callback may still return symbolic text
                string = string if is_strish(string) else string
            if is_strish(string):
                try:
                    return (symre.sub if name == 'sub' else symre.subn)(
                        pat, repl, string, count, call)
                except symre.Unsupported as u:
                    return getattr(pat, name)(repl, concretise_str(string, 're %s' % u), count)
        return getattr(pat, name)(*a, **k)
    if name in symre.METHODS and _any_sym(a, k):
        try:
            r = symre.METHODS[name](pat, *a, **k)
            return r
        except symre.Unsupported as u:
            pass
    return getattr(pat, name)(*deep_conc(list(a), 're.' + name), **deep_conc(k))


NATIVE_PREFIXES = tuple(set([
    '<builtin>', '<frozen', os.path.dirname(os.path.realpath(os.__file__)) + os.sep,
    os.path.dirname(os.__file__) + os.sep, os.path.join(sys.prefix, 'lib') + os.sep]))


def native_code(f):
    """Is this function's body library code (not instrumented, not a template)?"""
    c = getattr(f, '__code__', None)
    if _type(c) is not types.CodeType:
        return True
    g = f.__globals__
    if g is not None and MARK in g:
        return False
    return c.co_filename.startswith(NATIVE_PREFIXES)


def call(f, /, *a, **k):
    tf = _type(f)
    if tf is types.FunctionType:
        m = FUNC.get(f)
        if m is not None:
            return m(*a, **k)
        if not native_code(f):
            return f(*a, **k)
        return call_native(f, a, k)
    if tf is METHOD:
        s = f.__self__
        fn = f.__func__
        if _type(s) is random.Random:
            return random_method(s, f.__name__, a, k)
        if _type(fn) is types.FunctionType and not native_code(fn):
            return f(*a, **k)
        return call_method(f, s, a, k)
    if tf is BUILTIN:
        m = FUNC.get(f)
        if m is not None:
            return m(*a, **k)
        if f in (hasattr, getattr, setattr) and len(a) > 1 and _isinstance(a[1], Sym):
            a = (a[0], concretise_str(a[1], f.__name__)) + a[2:]
        if f is getattr and _isinstance(a[0], Sym) and a[1] == '__class__':
            return real_type(a[0])
        return call_native(f, a, k)
    if _isinstance(f, type):
        m = FUNC.get(f)
        if m is not None:
            return m(*a, **k)
        if f in TRANSPARENT or issubclass(f, BaseException):
            return f(*a, **k)
        init = getattr(f, '__init__', None)
        if _type(init) is types.FunctionType and not native_code(init):
            return f(*a, **k)
        new = getattr(f, '__new__', None)
        if _type(new) is types.FunctionType and not native_code(new):
            return f(*a, **k)
        return call_native(f, a, k)
    try:
        m = FUNC.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if _isinstance(f, functools.partial):
        return call(f.func, *(f.args + a), **dict(f.keywords, **k))
    return f(*a, **k)


def call_native(f, a, k):
    """A function or class of native / library code."""
    n = RE_FUNCS.get(f)
    if n is not None:
        if has_sym(a, 1) or n in ('sub', 'subn'):
            flags = k.pop('flags', 0)
            return re_call(re.compile(deep_conc(a[0]), flags), n, a[1:], k)
        return f(*a, **k)
    if f in TRANSPARENT or not (has_sym(a, 2) or has_sym(k, 2)):
        return f(*a, **k)
    m = SYMFUNC.get(f)
    if m is not None:
        return m(*a, **k)
    if getattr(f, '__module__', None) in OPAQUE_OK:
        return f(*a, **k)
    nm = getattr(f, '__name__', '?')
    if _type(f) is types.FunctionType and _type(getattr(f, '__code__', None)) is not types.CodeType and a:
        # an unbound builtin method: str.replace(x, ...), dict.get(d, k), list.append(l, x)
        s = a[0]
        if _isinstance(s, SymStr):
            if getattr(str, nm, None) is f:
                return getattr(s, nm)(*a[1:], **k)
        elif not _isinstance(s, Sym) and nm not in ('__init__', '__new__'):
            b = getattr(s, nm, None)
            if _type(b) is METHOD:
                return call_method(b, s, a[1:], k)
            return f(*a, **k)
        else:
            return f(*a, **k)
    if nm == '__init__' and a and _isinstance(a[0], BaseException) and not _isinstance(a[0], (SyntaxError, OSError)):
        return f(*a, **k)
    if f is bytes:
        return bytes(deep_conc(list(a[0]) if not is_sym(a[0]) else a[0]), *a[1:])
    why = 'call %s.%s' % (getattr(f, '__module__', None), nm)
    return f(*deep_conc(a, why), **deep_conc(k, why))


def call_method(f, s, a, k):
    """A bound method whose body is native / library code."""
    ts = _type(s)
    name = f.__name__
    if ts is str or (_isinstance(s, str) and not _isinstance(s, type)):
        if name == 'join':
            return join(s, *a)
        if name == 'format' or has_sym(a, 1) or has_sym(k, 1):
            return str_method(s, name, a, k)
        return f(*a, **k)
    if ts is PATTERN:
        return re_call(s, name, a, k)
    if _isinstance(s, dict):
        if a and _isinstance(a[0], Sym):
            return dict_method(s, name, a, k)
        return f(*a, **k)
    if ts is list:
        if name == 'sort':
            return f(key=None if k.get('key') is None else wrap_callable(k['key']),
                     reverse=k.get('reverse', False))
        return f(*a, **k)
    if _isinstance(s, (list, tuple, set, frozenset, Sym)):
        if _isinstance(s, (set, frozenset)) and a and _isinstance(a[0], Sym) \
                and name == '__contains__':
            return in_(a[0], s)
        return f(*a, **k)
    if _isinstance(s, pathlib.PurePath) and VFS.mine(s):
        return path_method(s, name, a, k)
    if not (has_sym(a, 2) or has_sym(k, 2)):
        return f(*a, **k)
    if ts.__module__ in OPAQUE_OK or ts in GENERATORS or f in TRANSPARENT \
            or (_isinstance(s, type) and s in TRANSPARENT):
        return f(*a, **k)
    fn = f.__func__
    if getattr(fn, '__module__', None) in OPAQUE_OK:
        return f(*a, **k)
    if _isinstance(s, BaseException) and name in ('__init__', '__new__') and not _isinstance(s, (SyntaxError, OSError)):
        return f(*a, **k)         # keeps its arguments
    why = 'call %s.%s' % (ts.__name__, name)
    return f(*deep_conc(a, why), **deep_conc(k, why))


GENERATORS = (types.GeneratorType,)
OPAQUE_OK = set(['collections', '_collections', 'itertools', 'contextlib', 'functools',
                 'operator', '_operator', 'weakref', 'types', 'copy'])
