"""Where an expression ends: $name, ${...}, $$."""
from symkj.api import XMLNOCR, chars, without
from props.ref import esc, esc_text
from props.large import exprs

AMBIG = u'\u0130\u0131\u017f\u212a'          # case-fold onto ASCII letters
IDCH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
BOUNDS = ('arbitrary symbolic text of 0..4 (thorough 6) XML characters after (and before) an '
          'expression; 40 expression shapes with nested braces, brackets, strings, comments, '
          'line breaks; symbolic $name tails; element text, CDATA and attribute positions; '
          'names of 1..3 symbolic identifier characters')
OUTSIDE = ('non-ASCII variable names and names starting with two underscores; $name directly followed by a period or by one of the four '
           'letters that case-fold to ASCII; expressions longer than the listed shapes')

# (expression, value) for v = 7, d = {'k': 'K}'}, s = '}'
EXPRS = [
    ('v', '7'), (' v', '7'), ('v ', '7'), (' v ', '7'), ('\nv', '7'), ('v\n', '7'), ('\n  v\n', '7'),
    ('(v)', '7'), ('[v][0]', '7'), ('{1: v}[1]', '7'), ('{1: {2: v}}[1][2]', '7'), ('d["k"]', 'K}'),
    ("d['k']", 'K}'), ("'}'", '}'), ('"}"', '}'), ("'{'", '{'), ('"{"', '{'), ("'}' + '{'", '}{'),
    ("'''}'''", '}'), ('"""}\n"""', '}\n'), ("'\\'}'", "'}"), ("'$'", '$'), ("'${v}'", '${v}'),
    ("'$v'", '$v'), ("'$$'", '$$'), ('len({1, 2})', '2'), ('len([x for x in {1, 2, 3}])', '3'),
    ('(lambda x: {x: 1})(5)[5]', '1'), ('"%s}" % v', '7}'), ("'{}'.format(v)", '7'),
    ("'{0}{0}'.format(v)", '77'), ('(\nv\n)', '7'), ('[\n1,\nv\n][1]', '7'), ('{\n1:\nv}[1]', '7'),
    ('v if v else {}', '7'), ('s', '}'), ('s + s', '}}'), ("''", ''), ("'a' 'b'", 'ab'),
    (u"'\u20ac}'", u'\u20ac}'), (u"'\U0001F600'", u'\U0001F600'), ('v # }\n', '7'),
    ('dict(a={})["a"] or 3', '3'), ('v and (not {}) and 1', '1'), ("u'x}'", 'x}'), ("r'\\}'", '\\}'),
    ('not v', 'False'), ('-v', '-7'), ('f"{v}"', '7'), ('f"{v}}}"', '7}'), ('{}', '{}'), ('{1}', '{1}'),
    ('()', '()'), ('[]', '[]'), ('None', ''), ('v.real', '7'), ('0', '0'), ("'a\\nb'", 'a\nb'),
    ('v>3', 'True'), ("'>'", '>'), ("(1\n,\n'}')[1]", '}'), (u"(u'\u2028',\n'}')[1]", '}'),
    (u"(u'\x85',\n'}')[1]", '}'), (u"(u'\u20ac',\n'}')[1]", '}'),
]
ENV = dict(v=7, d={'k': 'K}'}, s='}')


def tail_text(S, name, n, drop):
    t = S.str(name, (0, n), without(XMLNOCR, '&<$>' + drop))
    return t


def braced(S, i, n, where):
    """${expr} ends at its own closing brace whatever text surrounds it."""
    x, val = EXPRS[i]
    t = tail_text(S, 't', n, '')
    u = tail_text(S, 'u', 1, '')
    if where == 'text':
        out = S.kajiki.XMLTemplate('<p>' + u + '${' + x.replace('<', '&lt;') + '}' + t + '</p>')(
            dict(ENV)).render()
        S.eq(out, '<p>' + u + esc(val) + t + '</p>', 'braced expression')
    elif where == 'cdata':
        out = S.kajiki.XMLTemplate('<p><![CDATA[' + u + '${' + x + '}' + t + ']]></p>')(
            dict(ENV)).render()
        S.eq(out, '<p><![CDATA[' + u + esc(val) + t + ']]></p>', 'braced expression in CDATA')
    else:
        S.assume('\n' not in t)
        S.assume('\t' not in t)
        S.assume('\n' not in u)
        S.assume('\t' not in u)
        src = x.replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;')
        out = S.kajiki.XMLTemplate('<p a="' + u.replace('"', '&quot;') + '${' + src + '}'
                                   + t.replace('"', '&quot;') + '"/>')(dict(ENV)).render()
        if val == '' and x == 'None':
            val = ''
            if not len(t) and not len(u):
                S.eq(out, '<p/>', 'None attribute')
                return
        S.eq(out, '<p a="' + esc(u) + esc(val) + esc(t) + '"/>', 'braced expression in attribute')


def two(S, n):
    """Two expressions with arbitrary text between them."""
    t = S.str('t', (0, n), without(XMLNOCR, '&<$>'))
    out = S.kajiki.XMLTemplate("<p>${v}" + t + "${{'a': '}'}['a']}" + t + '$v</p>')(dict(ENV)).render()
    S.eq(out, '<p>7' + t + '}' + t + '7</p>', 'two expressions')


def named(S, n, where):
    """$name takes the longest run of identifier characters and periods, no more."""
    f = S.str('f', (0, 1), without(XMLNOCR, '&<$>.' + IDCH + AMBIG))
    t = S.str('t', (0, n), without(XMLNOCR, '&<$>'))
    if not len(f):
        t = ''
    u = S.str('u', (0, 2), without(XMLNOCR, '&<$>'))
    if where == 'text':
        out = S.kajiki.XMLTemplate('<p>' + u + '$v' + f + t + '</p>')(dict(ENV)).render()
        S.eq(out, '<p>' + u + '7' + f + t + '</p>', 'named expression')
    else:
        a = u + '|' + f + t
        S.assume('\n' not in a)
        S.assume('\t' not in a)
        q = lambda s: s.replace('"', '&quot;')
        out = S.kajiki.XMLTemplate('<p a="' + q(u) + '$v' + q(f + t) + '"/>')(dict(ENV)).render()
        S.eq(out, '<p a="' + esc(u) + '7' + esc(f + t) + '"/>', 'named expression in attribute')


class Dots(object):
    def __init__(self, k):
        self.k = k

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return Dots(self.k + '.' + name)

    def __str__(self):
        return '(' + self.k + ')'


class Names(dict):
    pass


def name(S, n):
    """The whole identifier is the name."""
    first = S.str('a', (1, 1), chars('aZ_'))
    rest = S.str('b', (0, n), chars('aZ_9'))
    k = first + rest
    S.assume(k != '_')
    S.assume(k[:2] != '__')            # Python's private names
    sep = S.choice('sep', ['', ' ', '-', '/', '(', '}', ',', u'\xe9', '$$', '[0]', "'", '"'])
    ctx = Names()
    for a in ('a', 'Z', '_'):
        for b in [''] + [x + y for x in 'aZ_9' for y in ('', 'a', 'Z', '_', '9')]:
            if a + b != '_':
                ctx[a + b] = 'is-' + a + b
    out = S.kajiki.XMLTemplate('<p>$' + k + sep + '</p>')(ctx).render()
    S.eq(out, '<p>is-' + k + esc_text(sep.replace('$$', '$')) + '</p>', 'whole identifier')


def dotted(S):
    """Periods continue the name."""
    p = S.choice('p', ['o.a', 'o.a.b', 'o.a_1.B', 'o.x9', 'O.a', 'o.a.x9', 'o._a', 'o.a9b', 'O.B.C.D', 'o1.a', 'o_._', 'oo.a', 'o.A1.b_2.c3'])
    sep = S.str('sep', (0, 2), without(XMLNOCR, '&<$>.' + IDCH + AMBIG))
    out = S.kajiki.XMLTemplate('<p>$' + p + sep + '</p>')(
        dict((k, Dots(k)) for k in ('o', 'O', 'o1', 'o_', 'oo'))).render()
    S.eq(out, '<p>(' + p + ')' + sep + '</p>', 'dotted name')


def longname(S, n):
    """Names have no limit."""
    k = S.choice('k', ['a' * n, 'o.' + 'b' * n, 'o' + '.a' * n, 'x_1' * n])
    sep = S.str('sep', (0, 1), without(XMLNOCR, '&<$>.' + IDCH + AMBIG))
    ctx = {'a' * n: 'A', 'x_1' * n: 'X', 'o': Dots('o')}
    v = {'a': 'A', 'x': 'X', 'o': '(' + k + ')'}[k[0]]
    S.eq(S.kajiki.XMLTemplate('<p>$' + k + sep + '</p>')(ctx).render(), '<p>' + v + sep + '</p>', 'long name')


def dollars(S, n, where):
    """Runs of dollars: pairs give one dollar each, an odd one introduces the name."""
    run = '$' * S.choice('k', list(range(1, n + 1)))
    nxt = S.choice('next', ['v', '{v}', '', ' ', '1', '-', 'v$', '{v}$', '$', u'\u20ac'])
    tail = S.choice('tail', ['', 'x', ' v'])
    src = run + nxt + tail
    # reference: scan left to right
    want, i = '', 0
    while i < len(src):
        c = src[i]
        if c != '$':
            want += c
            i += 1
        elif src[i + 1:i + 2] == '$':
            want += '$'
            i += 2
        elif src[i + 1:i + 2] == '{':
            want += '7'
            i = src.index('}', i) + 1
        elif src[i + 1:i + 2] and src[i + 1] in IDCH and not src[i + 1].isdigit():
            j = i + 1
            while j < len(src) and src[j] in IDCH:
                j += 1
            if src[i + 1:j] != 'v':
                want += 'W'
            else:
                want += '7'
            i = j
        else:
            want += '$'
            i += 1
    ctx = dict(v=7, vx='W', x='W', xv='W')
    if where == 'text':
        out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(ctx).render()
        S.eq(out, '<p>' + want + '</p>', 'dollars')
    else:
        out = S.kajiki.XMLTemplate('<p a="' + src + '"/>')(ctx).render()
        S.eq(out, '<p a="' + want + '"/>', 'dollars in attribute')


BAD = ['v', '', ' ', '}', 'v +}', 'v v}', "'v}", '(v}', '[v}', '{v', '"}', 'v]}', 'v)}', '1 if}',
       'for}', 'import os}', 'v = 1}', 'v;v}', '*}', 'lambda}', '{1:}', '(v', "'''}", 'v\nv}', 'return v}']


def bad(S, n):
    """What is not one Python expression up to a closing brace is rejected at compile time."""
    b = S.choice('b', BAD)
    pre = S.str('pre', (0, n), without(XMLNOCR, '&<$>{}'))
    X = S.kajiki.XMLTemplate
    try:
        X('<p>' + pre + '${' + b + '</p>')
    except Exception as e:
        S.check(type(e).__name__ == 'XMLTemplateCompileError', 'compile error for a bad expression',
                got=type(e).__name__)
        return
    S.fail('an invalid expression was accepted', expr=b)


def directive(S):
    """Expressions in directive attributes are taken whole."""
    x, val = EXPRS[S.choice('i', [i for i, (x, v) in enumerate(EXPRS)
                                  if '\n' not in x and '$' not in x and x.strip() == x
                                  and '#' not in x])]
    q = x.replace('"', '&quot;').replace('<', '&lt;')
    src = ('<p><b py:content="%s"/><i py:replace="%s"/><py:with vars="w=%s">$w</py:with>'
           '<py:for each="w in [%s]">$w</py:for></p>' % (q, q, q, q))
    out = S.kajiki.XMLTemplate(src)(dict(ENV)).render()
    e = esc(val)
    S.eq(out, '<p><b>' + e + '</b>' + e + e + e + '</p>', 'directive expressions')


def plan(tier):
    big = tier != 'quick'
    n = 6 if big else 4
    P = [('braced', dict(i=i, n=n - 1, where=w)) for i in range(len(EXPRS))
         for w in ('text', 'attr')]
    P += [('braced', dict(i=i, n=2, where='cdata')) for i in range(0, len(EXPRS), 3)]
    P += [('two', dict(n=n - 1))]
    P += [('named', dict(n=n - 2, where=w)) for w in ('text', 'attr')]
    P += [('name', dict(n=2), dict(conc_cap=500)), ('dotted', {}), ('directive', {})]
    P += [('dollars', dict(n=4, where=w)) for w in ('text', 'attr')]
    P += [('bad', dict(n=1))] + [('longname', dict(n=n)) for n in (33, 70, 300)]
    P += [('exprs', dict(n=m, shape=s)) for m, s in ((30, 'deep'), (30, 'braces'), (200, 'long'), (40, 'lines'), (700, 'string'), (70, 'many'))]
    return P
