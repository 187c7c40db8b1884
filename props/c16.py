"""Text templates."""
from symkj.api import ANY, LOWER, chars, without
from props.ref import esc
from props.makings import pick
from props.c06 import ENV, EXPRS
from props.large import textual as large

BOUNDS = ('symbolic text of 0..4 (thorough 6) arbitrary characters around expressions; every text of 0..3 (thorough 4) characters over the '
          'ten special ones; 60 shapes of braced expressions; values of 0..3 arbitrary characters in every form with autoescape on and off; all '
          'nestings two deep (thorough three) of if, if/else, for, switch, def, call, block and py in inline, line and mixed form with symbolic '
          'conditions, sequences, switch values, indentation and white space; values of 46 makings; chains of up to 3 text templates')
OUTSIDE = ('carriage returns and NUL in the template; blank lines directly before a directive on its own line; a backslash directly before a dollar sign or a tag; directives without their end; non-ASCII names; $name directly '
           'followed by a period or by one of the four letters that case-fold to ASCII')

AMBIG = u'\u0130\u0131\u017f\u212a'
SAFE = without(ANY, '$%\\{' + '\r\0')     # nothing special in text
WS = chars(' \t')


def tt(S, src, ctx, autoescape=False):
    return S.kajiki.TextTemplate(src, autoescape=autoescape)(ctx).render()


# ---- plain text ----------------------------------------------------------------------------------

def plain(S, n, how):
    """Text is left alone."""
    a = S.str('a', (0, n), SAFE)
    b = S.str('b', (0, n), SAFE)
    if how == 'text':
        S.eq(tt(S, 'x' + a, {}), 'x' + a, 'text')
    elif how == 'only':
        S.assume(len(a) > 0)
        S.eq(tt(S, a, {}), a, 'text')
    elif how == 'braced':
        S.eq(tt(S, a + '${v}' + b, dict(v='V')), a + 'V' + b, 'around a braced expression')
    elif how == 'dollars':
        S.eq(tt(S, a + '$$' + b, {}), a + '$' + b, 'around $$')
    elif how == 'many':
        S.eq(tt(S, a + '$$$$${v}$$' + b, dict(v='V')), a + '$$V$' + b, 'dollars')
    elif how == 'inline':
        S.eq(tt(S, a + '{%if True%}' + b + '{%end%}' + a, {}), a + b + a, 'around a tag')
    elif how == 'autoescape':
        S.eq(tt(S, a + '${v}' + b, dict(v='<'), True), a + '&lt;' + b, 'autoescape changes values only')
    elif how == 'function':
        S.eq(tt(S, '{%def f()%}' + a + '{%end%}' + b + '${f()}' + b, {}), b + a + b, 'in a function')
    elif how == 'line':
        S.assume('\n' not in a)        # blank lines before a line tag
        S.eq(tt(S, 'x' + a + '\n%if True\n[' + b + ']\n%end\nz', {}), 'x' + a + '\n[' + b + ']\nz', 'around a line tag')


def named(S, n):
    """$name covers the dotted name and nothing else."""
    IDCH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.'
    t = S.str('t', (0, n), without(SAFE, AMBIG))
    if len(t) > 0:
        S.assume(t[0] not in IDCH)
    x = S.choice('x', ['v', 'V', '_v', 'v9', 'o.a', 'o.b.a', 'o.a_1'])

    class O(object):
        pass
    o = O()
    o.a, o.a_1 = 'oa', 'oa1'
    o.b = O()
    o.b.a = 'oba'
    ctx = dict(v='1', V='2', _v='3', v9='4', o=o)
    val = {'o.a': 'oa', 'o.b.a': 'oba', 'o.a_1': 'oa1'}.get(x) or ctx[x]
    S.eq(tt(S, 'u$' + x + t, ctx), 'u' + val + t, 'named')


class Dots(object):
    def __init__(self, name):
        self.name = name

    def __getattr__(self, k):
        return Dots(self.name + '.' + k)

    def __str__(self):
        return self.name


def longname(S, n):
    """Names have no limit."""
    k = S.choice('k', ['a' * n, 'o.' + 'b' * n, 'o' + '.a' * n, 'x_1' * n])
    sep = S.str('sep', (0, 1), without(SAFE, AMBIG + '.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'))
    ctx = {'a' * n: 'A', 'x_1' * n: 'X', 'o': Dots('o')}
    v = {'a': 'A', 'x': 'X', 'o': k}[k[0]]
    S.eq(tt(S, '$' + k + sep, ctx), v + sep, 'long name')


ENDS = [('%py b = v', ''), ('%if v\nx\n%end', 'x\n'), ('%for i in [v]\n$i\n%end', None), ('a\n%if 0\nb\n%else\nc\n%end', 'a\nc\n'), ('%def f()\n%end', ''),
        ('%switch v\n%case v\n1\n%end', '1\n'), ('%def f(c)\n${c()}\n%end\n%call() f(%caller)\nq\n%end', 'q\n\n'),
        ('%block k\nb\n%end', 'b\n'), ('%include abc', 'ABC'), ('x\n%include abc', 'x\nABC'), ('%import abc as m12', ''), ('%extends abc', 'ABC'),
        ('{%if v%}x{%end%}', 'x'), ('%for i in "abc"\n$i\\\n%end', 'abc'), ('%py\nq = 1\n%end', ''), ('  %include abc', 'ABC')]


def ending(S, i):
    """The template may end right after a directive or with blanks or a line break."""
    v = S.str('v', (1, 1), ANY)
    tail = S.choice('tail', ['', ' ', '\n'])
    src, want = ENDS[i]
    if src.startswith('{'):
        S.assume(tail != ' ')
    L = S.kajiki.MockLoader({'t': S.kajiki.TextTemplate(src + tail), 'abc': S.kajiki.TextTemplate('ABC')})
    got = L.import_('t')(dict(v=v)).render()
    if want is None:
        want = v + '\n'
    if src.startswith('{'):
        want = want + tail
    S.eq(got, want, 'end of the template')


REFUSED = object()
LETTERS = 'a'


def scan(src):
    """What a text without any proper directive means: its output or REFUSED."""
    out, i, start = '', 0, True
    n = len(src)
    while i < n:
        if start:
            j = i
            while j < n and src[j] in ' \t\n':
                j += 1
            if j + 1 < n and src[j] == '%' and src[j + 1] == 'a':
                return REFUSED
        c = src[i]
        start = False
        if c == '$':
            if i + 1 < n and src[i + 1] == '$':
                out += '$'
                i += 2
            elif i + 1 < n and src[i + 1] == 'a':
                j = i + 1
                while j < n and src[j] == 'a':
                    j += 1
                out += 'V' * (j - i - 1)
                i = j
            else:
                return REFUSED
        elif c == '{' and i + 1 < n and src[i + 1] == '%':
            return REFUSED
        elif c == '\\' and i + 1 < n:
            if src[i + 1] != '\n':
                out += src[i + 1]
            start = src[i + 1] == '\n'
            i += 2
        else:
            out += c
            start = c == '\n'
            i += 1
    return out


def special(S, pre, n):
    """Every text over the special characters, from the documentation's rules."""
    t = S.str('t', (1, n), chars('a$%{}\\\n -'))
    src = pre + t
    for bad in ('${', '\\$', '\\{%'):
        S.assume(bad not in src)
    want = scan(src)
    ctx = dict(('a' * i, 'V' * i) for i in range(1, 6))
    if want is REFUSED:
        try:
            S.kajiki.TextTemplate(src)(ctx).render()
        except Exception:
            S.reach('refused')
            S.check(True, 'refused')
            return
        S.fail('an invalid directive was accepted')
    S.eq(tt(S, src, ctx), want, 'special characters')


def braced(S, i, n):
    """${expr} ends at its own brace whatever follows."""
    x, val = EXPRS[i]
    t = S.str('t', (0, n), SAFE)
    u = S.str('u', (0, 1), SAFE)
    S.eq(tt(S, u + '${' + x + '}' + t, dict(ENV)), u + val + t, 'braced expression')


BAD = ['${', '${}', '${ }', '${v', '${v +}', '${v)}', '${1 2}', '${v;v}', '${x = 1}', '${for}', '${(}', '${"}', '${v}}'[:-2], '${import os}',
       '${[}', '${v!}', '${\n}']


def badexpr(S, i):
    """What is not an expression is refused when the template is compiled."""
    t = S.str('t', (0, 1), LOWER)
    try:
        S.kajiki.TextTemplate('x' + BAD[i] + t)
    except Exception:
        S.check(True, 'refused')
        return
    S.fail('invalid expression accepted', src=BAD[i])


# ---- values --------------------------------------------------------------------------------------

class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Html(object):
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s


FORMS = {
    'named': ('[$v]', '[%s]'), 'braced': ('[${v}]', '[%s]'), 'dotted': ('[$o.x]', '[%s]'), 'twice': ('$v$v', '%s%s'),
    'if': ('{%if 1%}$v{%end%}', '%s'), 'for': ('{%for x in [v]%}$x,{%end%}', '%s,'),
    'for2': ('%for x in [v, v]\n$x\n%end\n', '%s\n%s\n'),
    'def': ('{%def f(x)%}<$x>{%end%}${f(v)}', '<%s>'), 'def2': ('%def f(x)\n<$x>\n%end\n${f(v)}', '<%s>\n'),
    'nested': ('{%def g(x)%}{$x}{%end%}{%def f(x)%}<${g(x)}>{%end%}${f(v)}', '<{%s}>'),
    'inner': ('{%def f(x)%}{%def g(y)%}<$y>{%end%}${g(x)}{%end%}${f(v)}', '<%s>'),
    'call': ('{%def f(c)%}<${c(v)}>{%end%}{%call(y) f(%caller)%}{$y}{%end%}', '<{%s}>'),
    'block': ('{%block b%}<$v>{%end%}', '<%s>'),
    'switch': ('{%switch 1%}{%case 1%}$v{%end%}', '%s'),
    'py': ('%py w = v\n$w', '%s'), 'py2': ('{%py w = v%}$w', '%s'), 'py3': ('%py\nw = v\nz = w\n%end\n$z', '%s'),
    'expr': ('${v if v is v else 1}', '%s'),
}


def makings(S, group, n):
    """Values of many makings show their string form."""
    v, s, name = pick(S, n, ANY, group)
    auto = S.choice('auto', [False, True])
    src, want = FORMS[S.choice('form', ['named', 'braced', 'def', 'for', 'call'])]
    a, b = want.split('%s')
    out = S.kajiki.TextTemplate(src, autoescape=auto)(dict(v=v)).render()
    S.eq(out, a + (esc(s) if auto else s) + b, 'a value made as ' + name)


def value(S, form, kind, auto, n):
    """A value is shown as its text; with autoescape, escaped."""
    src, want = FORMS[form]
    s = S.str('s', (0, n), ANY)
    if kind == 'str':
        v = s
    elif kind == 'none':
        v, s = None, ''
    elif kind == 'int':
        v = S.int('i', -9, 99)
        s = str(v)
    elif kind == 'obj':
        v = Obj(s)
    elif kind == 'literal':
        v = Html(s)
    e = esc(s) if auto and kind != 'literal' else s
    o = Obj('')
    o.x = v
    parts = want.split('%s')
    S.eq(tt(S, src, dict(v=v, o=o), auto), e.join(parts) if len(parts) > 1 else parts[0], 'value in ' + form)


# ---- control flow --------------------------------------------------------------------------------
# A construct makes (source, output) from the bodies' (source, output); line form wants bodies that are whole lines.

def ind(S):
    return S.str('ind', (0, 1), WS) if S.symind else ''


def tag(S, form, body):
    if form == 'line':
        return ind(S) + '%' + body + '\n'
    if form == 'trim':
        return '{%-' + body + '-%}'
    if form == 'space':
        return '{%' + body + ' %}'
    return '{%' + body + '%}'


def c_if(S, form, A, B):
    c = S.bool('c')
    k = S.name('c', c)
    return tag(S, form, 'if ' + k) + A[0] + tag(S, form, 'end'), (A[1] if c else '')


def c_not(S, form, A, B):
    c = S.bool('c')
    k = S.name('c', c)
    return tag(S, form, 'if not ' + k) + A[0] + tag(S, form, 'end'), ('' if c else A[1])


def c_ifelse(S, form, A, B):
    c = S.bool('c')
    k = S.name('c', c)
    return (tag(S, form, 'if ' + k) + A[0] + tag(S, form, 'else') + B[0] + tag(S, form, 'end'), (A[1] if c else B[1]))


def c_for(S, form, A, B):
    m = S.choice('m', [0, 1, 2])
    k = S.name('s', list(range(m)))
    return tag(S, form, 'for i in ' + k) + A[0] + tag(S, form, 'end'), A[1] * m


def c_switch(S, form, A, B):
    x = S.int('x', 0, 2)
    k = S.name('x', x)
    return (tag(S, form, 'switch ' + k) + tag(S, form, 'case 0') + A[0] + tag(S, form, 'case 1') + B[0] + tag(S, form, 'end'),
            A[1] if x == 0 else B[1] if x == 1 else '')


def c_switchelse(S, form, A, B):
    x = S.int('x', 0, 1)
    k = S.name('x', x)
    return (tag(S, form, 'switch ' + k) + tag(S, form, 'case 0') + A[0] + tag(S, form, 'else') + B[0] + tag(S, form, 'end'),
            A[1] if x == 0 else B[1])


def c_def(S, form, A, B):
    f = S.name('f', None)
    nl = '\n' if form == 'line' else ''
    return (tag(S, form, 'def ' + f + '(q)') + A[0] + tag(S, form, 'end') + '<${' + f + '(1)}>' + nl, '<' + A[1] + '>' + nl)


def c_deftwice(S, form, A, B):
    f = S.name('f', None)
    nl = '\n' if form == 'line' else ''
    return ('${' + f + '()}' + nl + tag(S, form, 'def ' + f + '()') + A[0] + tag(S, form, 'end') + '${' + f + '()}' + nl,
            A[1] + nl + A[1] + nl)


def c_call(S, form, A, B):
    f = S.name('f', None)
    nl = '\n' if form == 'line' else ''
    return (tag(S, form, 'def ' + f + '(g)') + '<${g(1)}${g(2)}>' + nl + tag(S, form, 'end')
            + tag(S, form, 'call(q) ' + f + '(%caller)') + '${q}' + A[0] + tag(S, form, 'end'),
            '<1' + A[1] + '2' + A[1] + '>' + nl)


def c_block(S, form, A, B):
    f = S.name('b', None)
    return tag(S, form, 'block ' + f) + A[0] + tag(S, form, 'end'), A[1]


def c_py(S, form, A, B):
    f = S.name('p', None)
    nl = '\n' if form == 'line' else ''
    return tag(S, form, 'py ' + f + ' = 5') + '${' + f + '}' + nl + A[0], '5' + nl + A[1]


CONS = dict(if_=c_if, not_=c_not, ifelse=c_ifelse, for_=c_for, switch=c_switch, switchelse=c_switchelse, def_=c_def, deftwice=c_deftwice,
            call=c_call, block=c_block, py=c_py)


class Ctl(object):
    """Names for the values that conditions use."""
    def __init__(self, S, symind):
        self.S, self.symind, self.ctx, self.k = S, symind, {}, 0
        for m in ('str', 'bool', 'int', 'choice'):
            setattr(self, m, getattr(S, m))

    def name(self, prefix, v):
        self.k += 1
        n = '%s%d' % (prefix, self.k)
        if v is not None:
            self.ctx[n] = v
        return n


def build(C, cons, form, text, depth=0):
    """Nested constructs with text around them; whole lines in line form."""
    nl = '\n' if form == 'line' else ''
    if not cons:
        return text + '${v}' + nl, text + C.ctx['v'] + nl
    inner = build(C, cons[1:], form, text, depth + 1)
    A = ('a' + nl + inner[0] + 'z' + nl, 'a' + nl + inner[1] + 'z' + nl)
    B = ('b' + nl, 'b' + nl)
    src, out = CONS[cons[0]](C, form, A, B)
    if depth == 0:
        return 'x' + nl + src + 'y', 'x' + nl + out + 'y'
    return src, out


def tree(S, cons, form, symind):
    C = Ctl(S, symind)
    C.ctx['v'] = S.str('v', (0, 1), ANY)
    src, out = build(C, cons, form, '-')
    S.eq(tt(S, src, C.ctx), out, 'nested directives')


def second(S, cons, form):
    """The nested construct in the second branch."""
    C = Ctl(S, False)
    C.ctx['v'] = S.str('v', (0, 1), ANY)
    nl = '\n' if form == 'line' else ''
    inner = CONS[cons[1]](C, form, ('${v}' + nl, C.ctx['v'] + nl), ('n' + nl, 'n' + nl))
    src, out = CONS[cons[0]](C, form, ('a' + nl, 'a' + nl), ('c' + nl + inner[0] + 'd' + nl, 'c' + nl + inner[1] + 'd' + nl))
    S.eq(tt(S, 'x' + nl + src + 'y', C.ctx), 'x' + nl + out + 'y', 'in the second branch')


def mixed(S, cons, outer):
    """An inline construct in a line construct and the other way round."""
    C = Ctl(S, False)
    C.ctx['v'] = S.str('v', (0, 1), ANY)
    if outer == 'line':
        i = CONS[cons[1]](C, 'inline', ('${v}', C.ctx['v']), ('n', 'n'))
        src, out = CONS[cons[0]](C, 'line', ('[' + i[0] + ']\n', '[' + i[1] + ']\n'), ('b\n', 'b\n'))
        src, out = 'x\n' + src, 'x\n' + out
    else:
        i = CONS[cons[1]](C, 'line', ('${v}\n', C.ctx['v'] + '\n'), ('n\n', 'n\n'))
        src, out = CONS[cons[0]](C, 'inline', ('[\n' + i[0] + ']', '[\n' + i[1] + ']'), ('b', 'b'))
    S.eq(tt(S, src + 'y', C.ctx), out + 'y', 'mixed forms')


def pyscope(S):
    """Loop variables and functions' parameters."""
    a = [S.str('a%d' % i, (0, 1), ANY) for i in range(S.choice('n', [0, 1, 2, 3]))]
    w = S.str('w', (0, 1), ANY)
    src = '%def f(x, y=w)\n$x/$y;\\\n%end\n%for i, x in enumerate(s)\n${f(x)}$i${f(y=x, x=i)}\n%end\n'
    out = ''
    for i, x in enumerate(a):
        out += x + '/' + w + ';' + str(i) + str(i) + '/' + x + ';\n'
    S.eq(tt(S, src.replace('y=w', 'y=1').replace('$y', '${y if y != 1 else w}'), dict(s=a, w=w)), out, 'parameters')


# ---- white space ---------------------------------------------------------------------------------

def spaces(S, how):
    a = S.str('a', (0, 2), WS)
    b = S.str('b', (0, 2), WS)
    nl = S.str('nl', (0, 2), chars('\n'))
    c = dict(c=True)
    if how == 'keep':
        S.eq(tt(S, 'x' + a + '{%if c%}' + b + 'y' + a + '{%end%}' + b + 'z', c), 'x' + a + b + 'y' + a + b + 'z', 'inline tags keep white space')
    elif how == 'before':
        S.eq(tt(S, 'x' + a + '{%-if c%}' + b + 'y' + a + '{%-end%}' + b + 'z', c), 'x' + b + 'y' + b + 'z', '{%- removes white space before')
    elif how == 'after':
        S.eq(tt(S, 'x' + a + '{%if c-%}' + b + 'y' + a + '{%end-%}' + b + 'z', c), 'x' + a + 'y' + a + 'z', '-%} removes white space after')
    elif how == 'afterline':
        S.eq(tt(S, 'x{%if c-%}' + b + '\n' + a + 'y{%end-%}' + a, c), 'x\n' + a + 'y', '-%} removes spaces, not line breaks')
    elif how == 'both':
        S.eq(tt(S, 'x' + a + '{%-if c-%}' + b + 'y' + a + '{%-end-%}' + b + 'z', c), 'xyz', 'both')
    elif how == 'linestart':
        S.eq(tt(S, 'x\n' + a + '{%-if c%}y{%end%}', c), 'x\ny', '{%- at the start of a line')
    elif how == 'first':
        S.eq(tt(S, a + '{%-if c%}y{%end%}', c), 'y', '{%- at the start')
    elif how == 'line':
        S.eq(tt(S, 'x\n' + a + '%if c\n' + b + 'y\n' + b + '%end\n' + a + 'z', c), 'x\n' + b + 'y\n' + a + 'z', 'line tags')
    elif how == 'linebody':
        S.eq(tt(S, 'x\n%if c' + a + '\ny\n%end' + b + '\nz', c), 'x\ny\nz', 'white space after a line tag')
    elif how == 'linefirst':
        S.eq(tt(S, a + '%if c\ny\n' + b + '%end', c), 'y\n', 'line tags at both ends')
    elif how == 'keyword':
        S.eq(tt(S, 'x{%if ' + a + 'c' + b + '%}y{%end' + a + '%}{%for' + ' ' + a + 'i in [1]' + b + '%}$i{%end%}', c), 'xy1', 'spaces in a tag')
    elif how == 'newlines':
        S.eq(tt(S, 'x{%if c%}' + nl + 'y{%end%}' + nl + 'z', c), 'x' + nl + 'y' + nl + 'z', 'line breaks around inline tags')
    elif how == 'joined':
        S.eq(tt(S, 'x\\\n' + a + 'y\\\n\\\n' + b + 'z', c), 'x' + a + 'y' + b + 'z', 'backslash at the end of a line')
    elif how == 'escaped':
        t = S.str('t', (1, 1), without(ANY, '$%{\r'))
        S.eq(tt(S, 'x\\' + t + 'y', c), 'x' + ('' if t == '\n' else t) + 'y', 'backslash')
    elif how == 'end':
        S.eq(tt(S, 'x' + a + '\\', c), 'x' + a + '\\', 'backslash at the end')
    elif how == 'switch':
        ws = S.str('ws', (0, 3), chars(' \t\n'))
        S.eq(tt(S, 'x{%switch 2%}' + ws + '{%case 1%}a{%case 2%}b{%else%}c{%end%}' + ws + 'y', c), 'xb' + ws + 'y', 'before the first case')


# ---- functions, inheritance, Python --------------------------------------------------------------

def chain(S, n, call):
    """Functions and blocks in a chain of text templates."""
    v = S.str('v', (0, 1), ANY)
    over = [True] + [S.choice('o%d' % i, [False, True]) for i in range(1, n)]
    fover = [True] + [S.choice('f%d' % i, [False, True]) for i in range(1, n)]
    up = [False] + [S.choice('u%d' % i, [False, True]) for i in range(1, n)]
    srcs = {}
    for i in range(n):
        s = '' if i == 0 else '%extends "t' + str(i - 1) + '"\n'
        if fover[i]:
            s += '%def f()\nf' + str(i) + '$v\\\n%end\n'
        if over[i]:
            s += ('<{%block b%}' if i == 0 else '{%block b%}') + 'b' + str(i) + '$v' + ('${parent_block()}' if up[i] else '') + \
                ('{%end%}>' if i == 0 else '{%end%}')
        if i == 0:
            s += {'plain': '${f()}', 'self': '${self.f()}', 'local': '${local.f()}'}[call] + '\n'
        srcs['t%d' % i] = s
    L = S.kajiki.MockLoader(dict((k, S.kajiki.TextTemplate(s)) for k, s in srcs.items()))
    lv = [i for i in range(n) if over[i]]

    def block(k):
        i = lv[k]
        return 'b' + str(i) + v + (block(k - 1) if up[i] else '')
    f = 0 if call == 'local' else max(i for i in range(n) if fover[i])
    for i in range(n, 0, -1):
        if i == n:
            S.eq(L.load('t%d' % (n - 1))(dict(v=v)).render(), '<' + block(len(lv) - 1) + '>f' + str(f) + v + '\n', 'chain')
    S.eq(L.load('t0')(dict(v=v)).render(), '<b0' + v + '>f0' + v + '\n', 'the base itself')


def files(S):
    """Text templates from files: include, import, extends."""
    v = S.str('v', (0, 2), ANY)
    t = S.str('t', (0, 2), without(SAFE, '\n'))
    fs = S.fs()
    fs.write('part.txt', '[' + t + '$v]', 1)
    fs.write('lib.txt', '%def g(x)\n(' + t + '$x)\\\n%end\n', 1)
    fs.write('base.txt', 'B{%block k%}{%end%}E', 1)
    fs.write('page.txt', '%extends "base.txt"\n%block k\n%import "lib.txt" as l\n${l.g(v)}\n%include "part.txt"\n%end\n', 1)
    fs.write('page2.txt', '%import "lib.txt" as l\n${l.g(v)}{%include "part.txt"%}' + t + '\n', 1)
    L = S.kajiki.FileLoader(fs.root)
    S.eq(L.load('page2.txt')(dict(v=v)).render(), '(' + t + v + ')[' + t + v + ']' + t + '\n', 'include and import')
    S.eq(L.load('page.txt')(dict(v=v)).render(), 'B(' + t + v + ')\n[' + t + v + ']E', 'extends')
    S.eq(L.load('part.txt')(dict(v=v)).render(), '[' + t + v + ']', 'the part')


PY = {
    'line': ('%py w = v + "1"\n$w', '1'),
    'inline': ('{%py w = v + "1"%}$w', '1'),
    'block': ('%py\nw = v\nw = w + "1"\n%end\n$w', '1'),
    'inlineblock': ('{%py%}\nw = v\nw = w + "1"\n{%end%}$w', '1'),
    'indent': ('%py\n    w = v\n    w = w + "1"\n%end\n$w', '1'),
    'if': ('%py\nif True:\n    w = v + "1"\nelse:\n    w = 0\n%end\n$w', '1'),
    'blank': ('%py\n\nw = v\n\n\nw = w + "1"\n%end\n$w', '1'),
    'function': ('%py\ndef h(x):\n    return x + "1"\n%end\n${h(v)}', '1'),
    'module': ('%py %import os.path\n$v${os.path.basename("a/1")}', '1'),
    'inside': ('%def f(x)\n%py y = x + "1"\n$y\\\n%end\n${f(v)}', '1'),
    'loop': ('%py w = v\n%for i in [0]\n%py w = w + "1"\n%end\n$w', '1'),
    'percent': ('%py w = "%s%d" % (v, 1)\n$w', '1'),
    'two': ('%py a = v\n%py b = a + "1"\n$b', '1'),
    'later': ('%if True\n%py w = v + "1"\n%end\n$w', '1'),
}


def python(S, k):
    src, add = PY[k]
    v = S.str('v', (0, 2), ANY)
    S.eq(tt(S, 'x\n' + src + '\ny', dict(v=v)), 'x\n' + v + add + '\ny', 'python block')


REF = ['{%', '{%-', '{%1%}', '{% if v%}x{%end%}', '{%if v', '{%-if v%', '%nosuch\n', '{%nosuch%}', '$', 'a$ ', '$1', '$-', '%if v +\nx\n%end\n',
       '{%for%}x{%end%}', '{%for i%}x{%end%}', '%extends\n', '%include\n', '%import\n', '%include a b\n', '%extends a b\n', '%import a is b\n',
       '{%call f%}x{%end%}', '{%switch 1%}x{%case 1%}y{%end%}', '{%if v%}x', '{%case%}', '%py v +\n']


def refused(S, i):
    """A malformed directive is an error, not text."""
    t = S.str('t', (0, 1), LOWER)
    try:
        S.kajiki.TextTemplate('x\n' + REF[i] + ('\n' + t if REF[i][-1:] in '%-$ v' else t if REF[i].endswith('\n') else ' ' + t))(dict(v=1)).render()
    except Exception:
        S.check(True, 'refused')
        return
    S.fail('accepted', src=REF[i])


def plan(tier):
    big = tier != 'quick'
    P = []
    for how in ('text', 'only', 'braced', 'dollars', 'many', 'inline', 'autoescape', 'function', 'line'):
        P.append(('plain', dict(n=(3 if big else 2) if how == 'braced' else 6 if big else 4 if how in ('text', 'only') else 2, how=how)))
    P += [('longname', dict(n=m)) for m in (33, 70, 300)] + [('ending', dict(i=i)) for i in range(len(ENDS))]
    P.append(('named', dict(n=3 if big else 2)))
    for pre in ('', 'x', 'x\n', 'x ', '%', '{', 'x\\', '$a', 'x\n\n', ' ', 'x\n ', '-', '$$', '}', 'x\n%', 'x\n %', '{{', 'a%', '{ %'):
        P.append(('special', dict(pre=pre, n=4 if big else 3 if pre in ('', 'x\n') else 2)))
    P += [('braced', dict(i=i, n=3 if big else 2)) for i in range(len(EXPRS))]
    P += [('badexpr', dict(i=i)) for i in range(len(BAD))]
    for f in sorted(FORMS):
        for k in ('str', 'none', 'int', 'obj', 'literal'):
            for auto in (False, True):
                if k == 'literal' and not auto:
                    continue
                if big or k in ('str', 'none') or f in ('named', 'for', 'def', 'call', 'block'):
                    P.append(('value', dict(form=f, kind=k, auto=auto, n=3 if big else 2)))
    names = sorted(CONS)
    for a in names:
        for form in ('inline', 'line', 'trim', 'space'):
            P.append(('tree', dict(cons=[a], form=form, symind=form == 'line')))
            for b in names:
                if big or form in ('inline', 'line'):
                    P.append(('tree', dict(cons=[a, b], form=form, symind=False)))
                    if a in ('ifelse', 'switch', 'switchelse'):
                        P.append(('second', dict(cons=[a, b], form=form)))
        for b in names:
            P.append(('mixed', dict(cons=[a, b], outer='line')))
            P.append(('mixed', dict(cons=[a, b], outer='inline')))
            if big:
                for c in names:
                    for form in ('inline', 'line'):
                        P.append(('tree', dict(cons=[a, b, c], form=form, symind=False)))
    for a in ('ifelse', 'switchelse', 'for_', 'if_'):
        for b in ('ifelse', 'switchelse', 'if_'):
            for c in ('ifelse', 'switchelse', 'switch'):
                P.append(('tree', dict(cons=[a, b, c], form='inline', symind=False)))
    for how in ('keep', 'before', 'after', 'afterline', 'both', 'linestart', 'first', 'line', 'linebody', 'linefirst', 'keyword', 'newlines', 'joined',
                'escaped', 'end', 'switch'):
        P.append(('spaces', dict(how=how)))
    P += [('chain', dict(n=n, call=c)) for n in (1, 2, 3) for c in ('plain', 'self', 'local')]
    # a function inside a function is used after its definition, as in Python
    P = [(f, k) for f, k in P if 'deftwice' not in k.get('cons', [])[1:] or not set(k['cons'][:-1]) & {'def_', 'deftwice'}]
    P += [('pyscope', {}), ('files', {})]
    P += [('makings', dict(group=g, n=3 if big else 1)) for g in range(8)]
    P += [('python', dict(k=k)) for k in sorted(PY)]
    P += [('refused', dict(i=i)) for i in range(len(REF))]
    P += [('large', dict(n=m, shape=s)) for m, s in ((10000, 'long'), (70000, 'value'), (130, 'loop'), (25, 'ifs'), (40, 'cases'), (40, 'functions'), (100, 'many'))]
    return P
