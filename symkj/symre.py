"""Symbolic model of the stdlib ``re`` matcher (backtracking, leftmost, same
priorities) over symbolic strings.  Patterns come from sre_parse, so whatever
pattern the code under test compiles is what is interpreted."""
import re
import sre_compile
import sre_constants as C
import sre_parse

from . import terms as tm
from . import engine as eng
from .symval import (SymStr, chars_of, mkchars, chars_eq, is_strish, concretise_str,
                     ws_ranges, cat, _slice_bounds)

_parsed = {}
_sets = {}
_ALL = None


class Unsupported(Exception):
    pass


def _all_chars():
    global _ALL
    if _ALL is None:
        _ALL = ''.join(chr(i) for i in range(0x110000) if not 0xD800 <= i <= 0xDFFF)
    return _ALL


def _to_ranges(cps):
    out = []
    for c in cps:
        if out and c == out[-1][1] + 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple((a, b) for a, b in out)


def set_ranges(op, av, flags):
    """The exact set of code points one character-matching op accepts."""
    key = (op, repr(av), flags & (re.I | re.A | re.U | re.S | re.L))
    r = _sets.get(key)
    if r is None:
        if op is C.LITERAL and not flags & re.I:
            r = ((av, av),)
        elif op is C.ANY:
            r = ((0, 0x10FFFF),) if flags & re.S else ((0, 9), (11, 0x10FFFF))
        elif op is C.NOT_LITERAL and not flags & re.I:
            r = tuple(x for x in ((0, av - 1), (av + 1, 0x10FFFF)) if x[0] <= x[1])
        else:
            state = sre_parse.State() if hasattr(sre_parse, 'State') else sre_parse.Pattern()
            state.flags = flags & ~re.X
            state.str = 'x'
            sp = sre_parse.SubPattern(state, [(op, av)])
            pat = sre_compile.compile(sp, flags & ~re.X & ~re.DEBUG)
            r = _to_ranges([ord(m.group()) for m in pat.finditer(_all_chars())])
        _sets[key] = r
    return r


CHAR_OPS = (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY)


class Matcher(object):
    def __init__(self, pat):
        self.pat = pat
        key = (pat.pattern, pat.flags)
        if key not in _parsed:
            _parsed[key] = sre_parse.parse(pat.pattern, pat.flags & ~re.DEBUG)
        self.tree = _parsed[key]
        self.flags = pat.flags
        self.ngroups = pat.groups

    # m(seq, i, pos, groups, flags, k): match items seq[i:], then k(pos, groups)
    def m(self, seq, i, pos, g, flags, k):
        if i >= len(seq):
            return k(pos, g)
        op, av = seq[i]
        e = eng.CUR
        s = self.s

        def nxt(p, gg):
            return self.m(seq, i + 1, p, gg, flags, k)

        if op in CHAR_OPS:
            if pos >= self.end:
                return None
            if e.branch(tm.inset(s[pos], set_ranges(op, av, flags))):
                return nxt(pos + 1, g)
            return None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, pos, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, delf, p = av
            f2 = (flags | add) & ~delf

            def close(p2, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, p2)
                    gg['last'] = gid
                return nxt(p2, gg)
            return self.m(list(p), 0, pos, g, f2, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = None if hi is C.MAXREPEAT else hi
            greedy = op is C.MAX_REPEAT
            if greedy and len(p) == 1 and p[0][0] in CHAR_OPS:
                # single-character greedy loop: iterate instead of recursing
                rs = set_ranges(p[0][0], p[0][1], flags)
                j = pos
                while j < self.end and (hi is None or j - pos < hi) \
                        and e.branch(tm.inset(s[j], rs)):
                    j += 1
                while j - pos >= lo:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    j -= 1
                return None

            def rep(count, p0, gg):
                def again(p2, g2):
                    if p2 == p0 and count >= lo:
                        return None
                    return rep(count + 1, p2, g2)
                if count < lo:
                    return self.m(p, 0, p0, gg, flags, again)
                if greedy:
                    if hi is None or count < hi:
                        r = self.m(p, 0, p0, gg, flags, again)
                        if r is not None:
                            return r
                    return nxt(p0, gg)
                r = nxt(p0, gg)
                if r is not None:
                    return r
                if hi is None or count < hi:
                    return self.m(p, 0, p0, gg, flags, again)
                return None
            return rep(0, pos, g)
        if op is C.AT:
            n = len(s)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if pos == 0:
                    return nxt(pos, g)
                if av is C.AT_BEGINNING and flags & re.M and e.branch(tm.eq(s[pos - 1], 10)):
                    return nxt(pos, g)
                return None
            if av is C.AT_END_STRING:
                return nxt(pos, g) if pos == self.end else None
            if av is C.AT_END:
                if pos == self.end:
                    return nxt(pos, g)
                if flags & re.M:
                    if e.branch(tm.eq(s[pos], 10)):
                        return nxt(pos, g)
                elif pos == self.end - 1 and e.branch(tm.eq(s[pos], 10)):
                    return nxt(pos, g)
                return None
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                rs = set_ranges(C.IN, [(C.CATEGORY, C.CATEGORY_WORD)], flags)
                a = pos > 0 and e.branch(tm.inset(s[pos - 1], rs))
                b = pos < self.end and e.branch(tm.inset(s[pos], rs))
                if (a != b) == (av is C.AT_BOUNDARY):
                    return nxt(pos, g)
                return None
            raise Unsupported('AT %s' % av)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            p = list(p)

            def done(p2, gg):
                return (p2, gg)
            if direction >= 0:
                r = self.m(p, 0, pos, g, flags, done)
            else:
                lo, hi = sre_parse.SubPattern(None, p).getwidth() if False else av[1].getwidth()
                r = None
                if pos - lo >= 0:
                    r = self.m(p, 0, pos - lo, g, flags,
                               lambda p2, gg: (p2, gg) if p2 == pos else None)
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            n = b - a
            if pos + n > self.end:
                return None
            if flags & re.I:
                raise Unsupported('GROUPREF ignorecase')
            if e.branch(chars_eq(s[a:b], s[pos:pos + n])):
                return nxt(pos + n, g)
            return None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            p = yes if gid in g else no
            return self.m(list(p) if p else [], 0, pos, g, flags, nxt)
        raise Unsupported(str(op))

    def at(self, string, chars, pos, end, full=False, nonempty_at=None):
        self.s = chars
        self.end = end

        def k(p, g):
            if full and p != end:
                return None
            if nonempty_at is not None and p == nonempty_at:
                return None
            return (p, g)
        r = self.m(list(self.tree), 0, pos, {}, self.flags, k)
        if r is None:
            return None
        return SymMatch(self.pat, string, chars, pos, r[0], r[1])


class SymMatch(object):
    def __init__(self, pat, string, chars, start, end, groups):
        self.re = pat
        self.string = string
        self._c = chars
        self._s = start
        self._e = end
        self._g = groups
        self.pos = 0
        self.endpos = len(chars)

    def _gid(self, n):
        if n == 0:
            return 0
        if is_strish(n):
            return self.re.groupindex[concretise_str(n)]
        if n > self.re.groups or n < 0:
            raise IndexError('no such group')
        return n

    def span(self, n=0):
        n = self._gid(n)
        if n == 0:
            return (self._s, self._e)
        return self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, default=None):
        a, b = self.span(n)
        if a < 0:
            return default
        return mkchars(self._c[a:b])

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._one(v, default)) for k, v in self.re.groupindex.items())

    @property
    def lastindex(self):
        return self._g.get('last')

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == i:
                return k
        return None

    def __bool__(self):
        return True

    def expand(self, tpl):
        return expand(self, tpl)


def expand(m, tpl):
    if isinstance(tpl, SymStr):
        tpl = concretise_str(tpl, 're.expand')
    if '\\' not in tpl:
        return tpl
    groups, literals = sre_parse.parse_template(tpl, m.re)
    lits = list(literals)
    for i, gid in groups:
        lits[i] = m.group(gid) or ''
    return cat([x for x in lits if x is not None])


def finditer(pat, string, pos=0, endpos=None):
    chars = chars_of(string)
    pos, end = _slice_bounds(len(chars), pos, endpos)
    mt = Matcher(pat)
    # sre: after an empty match the next search from the same position must be non-empty
    must_advance = False
    while pos <= end:
        found = None
        for p in range(pos, end + 1):
            found = mt.at(string, chars, p, end,
                          nonempty_at=p if (must_advance and p == pos) else None)
            if found is not None:
                break
        if found is None:
            return
        yield found
        must_advance = found._e == found._s
        pos = found._e


def search(pat, string, pos=0, endpos=None):
    for m in finditer(pat, string, pos, endpos):
        return m
    return None


def match(pat, string, pos=0, endpos=None):
    chars = chars_of(string)
    pos, end = _slice_bounds(len(chars), pos, endpos)
    return Matcher(pat).at(string, chars, pos, end)


def fullmatch(pat, string, pos=0, endpos=None):
    chars = chars_of(string)
    pos, end = _slice_bounds(len(chars), pos, endpos)
    return Matcher(pat).at(string, chars, pos, end, full=True)


def findall(pat, string, pos=0, endpos=None):
    out = []
    for m in finditer(pat, string, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._one(1, ''))
        else:
            out.append(m.groups(''))
    return out


def subn(pat, repl, string, count=0, call=None):
    chars = chars_of(string)
    out = []
    last = 0
    n = 0
    for m in finditer(pat, string):
        if count and n >= count:
            break
        out.append(mkchars(chars[last:m._s]))
        if callable(repl):
            r = call(repl, m) if call else repl(m)
        else:
            r = expand(m, repl)
        out.append(r)
        last = m._e
        n += 1
    out.append(mkchars(chars[last:]))
    return cat(out), n


class CharMatch(object):
    """The match of a single known character, whose place in the text is not known."""
    def __init__(self, pat, ch):
        self._m = pat.fullmatch(ch)
        self.re = pat
        for n in ('group', 'groups', 'groupdict', 'lastindex', 'lastgroup', '__getitem__'):
            setattr(self, n, getattr(self._m, n))

    def __getitem__(self, n):
        return self._m[n]

    def __getattr__(self, name):
        raise Placed(name)


class Placed(Exception):
    pass


_CALLABLE_OK = set('group groups get ord str chr hex format upper lower __sx_call__ __sx_getitem__ '
                   '__sx_in__ __sx_not_in__ __sx_fstr__ __sx_mod__'.split())


def _pure(fn):
    """Conservative: the callback only looks things up."""
    import dis
    from .instrument import SxLoader
    code = getattr(fn, '__code__', None)
    if code is None or getattr(fn, '__self__', None) is not None:
        return False
    bad = set(n for t in (list, dict, set, str, bytes) for n in dir(t))
    bad.update(n for v in SxLoader.loaded.values() for n in v)
    bad.update(('next', 'send', 'write', 'print', 'open', 'exec', 'eval', 'setattr'))
    bad -= _CALLABLE_OK
    if any(n in bad for n in code.co_names):
        return False
    return not any(i.opname.startswith(('STORE_', 'DELETE_', 'YIELD')) and
                   i.opname != 'STORE_FAST' or i.opname in ('MAKE_FUNCTION', 'IMPORT_NAME')
                   for i in dis.get_instructions(code))


def _sub_chars(pat, repl, string, call):
    """A pattern that matches one character out of a few: substitute without forking."""
    tree = Matcher(pat).tree
    if len(tree) != 1 or not isinstance(string, SymStr) or string.opaque():
        return None
    lo, hi = tree.getwidth()
    if (lo, hi) != (1, 1):
        return None
    seq, flags = list(tree), pat.flags
    while len(seq) == 1 and seq[0][0] is C.SUBPATTERN and not seq[0][1][1] and not seq[0][1][2]:
        seq = list(seq[0][1][3])
    if len(seq) != 1 or seq[0][0] not in CHAR_OPS:
        return None
    rs = set_ranges(seq[0][0], seq[0][1], flags)
    if sum(b - a + 1 for a, b in rs) > 24:
        return None
    if callable(repl):
        if not _pure(repl):
            return None
    elif not isinstance(repl, str):
        return None
    cps = [c for a, b in rs for c in range(a, b + 1)]
    terms = [x for x in string.els if not isinstance(x, str)]
    table = {}
    for c in cps:
        if not any(isinstance(x, str) and chr(c) in x for x in string.els) and \
                not any(eng.CUR.must(tm.eq(x, c)) is not False for x in terms
                        if isinstance(x, tm.T)) and \
                all(isinstance(x, tm.T) for x in terms):
            continue
        m = CharMatch(pat, chr(c))
        try:
            r = (call(repl, m) if call else repl(m)) if callable(repl) else m._m.expand(repl)
        except eng.Control:
            raise
        except Exception:        # e.g. a character that the callback does not know
            return None
        if type(r) is not str:
            return None
        table[c] = r
    return string.translate(table)


def sub(pat, repl, string, count=0, call=None):
    if not count:
        r = _sub_chars(pat, repl, string, call)
        if r is not None:
            return r
    return subn(pat, repl, string, count, call)[0]


def split(pat, string, maxsplit=0):
    chars = chars_of(string)
    out = []
    last = 0
    n = 0
    for m in finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(mkchars(chars[last:m._s]))
        out.extend(m.groups())
        last = m._e
        n += 1
    out.append(mkchars(chars[last:]))
    return out


METHODS = dict(search=search, match=match, fullmatch=fullmatch, finditer=finditer,
               findall=findall, split=split)
