"""Tracebacks of errors while rendering point at the template line."""
from symkj.api import chars, LOWER

BOUNDS = ('every construct with an expression (56 in XML, 29 in text templates), preceded by symbolic text of 0..3 characters with any number of line breaks and by '
          '0..600 further lines (every distance near 127, 255 and 512), inside every enclosing construct; one, two or three failing places with a symbolic '
          'choice of which one fails and at which iteration; pages with parents, included and imported templates of symbolic length')
OUTSIDE = ('which of its lines is reported for an expression, start tag or Python block that spans several lines; frames of functions '
           'that the context provides; carriage returns')


class Boom(Exception):
    pass


class Obj(object):
    """fails(k) raises if k is the one chosen, else gives k."""
    def __init__(self, at):
        self.at = at
        self.n = 0

    def f(self, k=0):
        if k == self.at:
            raise Boom()
        return 'x'

    def later(self, n):
        """Raises at the n-th call."""
        self.n += 1
        if self.n == n:
            raise Boom()
        return 'x'

    def pairs(self):
        return {'a': self.f(0)}

    def items_(self, k):
        return [self.f(k)]


def frames(e, *names):
    """(file, line) of the frames that belong to templates, outermost first."""
    tb, out = e.__traceback__, []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn in names or fn == '<string>':
            out.append((fn, tb.tb_lineno))
        tb = tb.tb_next
    return out


def where(S, T, ctx, *names):
    try:
        T(ctx).render()
    except Boom as e:
        fr = frames(e, *names)
        S.check(len(fr) > 0, 'no frame of the template in the traceback')
        return fr
    S.fail('the error disappeared')


def expect(S, fr, name, lo, hi, msg):
    S.check(fr[-1][0] == name, msg + ': file', got=fr[-1][0], want=name)
    S.check(lo <= fr[-1][1], msg + ': line too small', got=fr[-1][1], want=lo)
    S.check(fr[-1][1] <= hi, msg + ': line too large', got=fr[-1][1], want=hi)


# The failing expression is o.f(); @ marks the first line and ~ the last line that may be reported.
XML = {
    'braced': '@${o.f()}',
    'braced2': 'a @${ o.f() } b\n',
    'argument': '@${len(o.f())}',
    'multi': '@${(1,\no.f())~}',
    'multi2': '@${(o.f(),\n1)~}',
    'lead': '@${\no.f()~}',
    'trail': '@${o.f()\n~}',
    'dollar': '$$\n$$ @${o.f()}',
    'named': '@$o.bad',
    'entity': '&lt;\n&amp;\n&nbsp;\n @${o.f()}',
    'second': '${1}\n${2} @${o.f()}\n${3}',
    'aftermulti': '${(1,\n2)}\n@${o.f()}',
    'afterlead': '${\n1}\n@${o.f()}',
    'attr': '<a @b="${o.f()}"/>',
    'attr2': '@<a\n b="1"\n c="x${o.f()}y"~/>',
    'attrn': '<a @b="$o.bad">x</a>',
    'attr3': '@<a b="$v"\n c="${o.f()}"~ d="$v"/>',
    'attrboth': '<a @b="$v$v${o.f()}">x</a>',
    'attrs': '<a @py:attrs="o.pairs()"/>',
    'if': '<py:if @test="o.f()">x</py:if>',
    'ifattr': '<i @py:if="o.f()">x</i>',
    'elif': '<py:if test="0">\n</py:if><py:else>\n@${o.f()}</py:else>',
    'inif': '<py:if test="1">\n@${o.f()}\n</py:if>',
    'for': '<py:for @each="x in o.f()">\nx</py:for>',
    'forattr': '<i @py:for="x in o.f()">\nx</i>',
    'infor': '<py:for each="x in (1,)">\n\n@${o.f()}</py:for>',
    'forself': '<i @py:for="x in (1, 2)" a="${o.f()}">x</i>',
    'switch': '<py:switch @test="o.f()">\n<py:case value="1">x</py:case></py:switch>',
    'case': '<py:switch test="1">\n<py:case @value="o.f()">x</py:case></py:switch>',
    'case2': '<py:switch test="1">\n<py:case value="2">x</py:case>\n<py:case @value="o.f()">x</py:case></py:switch>',
    'incase': '<py:switch test="1">\n<py:case value="1">x\n@${o.f()}</py:case></py:switch>',
    'switchelse': '<py:switch test="1">\n<py:case value="2">x\n</py:case><py:else>\n@${o.f()}</py:else></py:switch>',
    'with': '<py:with @vars="a=o.f()">\nx</py:with>',
    'with2': '<py:with @vars="a=1; b=o.f(); c=3">\nx</py:with>',
    'withattr': '<i @py:with="a=o.f()">\nx</i>',
    'inwith': '<py:with vars="a=1">\n@${o.f()}</py:with>',
    'content': '<i @py:content="o.f()">\nx</i>',
    'replace': '<i @py:replace="o.f()">\nx</i>',
    'strip': '<i @py:strip="o.f()">\nx</i>',
    'python': '<?py y = @o.f()?>',
    'python2': '@<?py\nx = 1\ny = o.f()\nz = 2~?>',
    'afterpy': '<?py\nx = 1\n\ny = 2?>\n@${o.f()}',
    'def': '<py:def function="f()">\n@${o.f()}\n</py:def>\n\n\n${f()}',
    'deflate': '${f()}\n\n<py:def function="f()">\n@${o.f()}\n</py:def>\n\n\n',
    'defattr': '<i py:def="f(x)">\n@${o.f()}\n</i>\n\n\n${f(1)}',
    'defs': '<py:def function="f()">\nx</py:def>\n<py:def function="g()">\n\n@${o.f()}</py:def>\n<py:def function="h()">\n$v</py:def>${f()}${h()}${g()}',
    'deep': '<py:def function="f()">\n${g()}</py:def>\n<py:def function="g()">\n\n@${o.f()}</py:def>\n${f()}',
    'argcall': '<py:def function="f(x)">\nx</py:def>\n\n@${f(o.f())}',
    'afterdef': '<py:def function="f()">\n\n\nx</py:def>${f()}\n@${o.f()}',
    'inner': '<py:def function="f()">\n<py:def function="g()">\n@${o.f()}</py:def>\n${g()}\n</py:def>\n\n\n${f()}',
    'innerdeep': '<py:def function="f()">\n<py:def function="g()"><py:def function="h()">\n\n@${o.f()}</py:def>${h()}</py:def>\n${g()}\n</py:def>\n\n\n${f()}',
    'call': '<py:def function="f(c)">\n${c()}\n</py:def>\n<py:call args="" function="f(%caller)">\n@${o.f()}</py:call>\n',
    'calling': '<py:def function="f(c, d)">\n${c()}\n</py:def>\n<py:call args="" @function="f(%caller, o.f())">\nx\n</py:call>\n',
    'callee': '<py:def function="f(c)">\n${c()}\n@${o.f()}</py:def>\n<py:call args="" function="f(%caller)">\nx\n</py:call>\n',
    'block': '<py:block name="k">\n@${o.f()}\n</py:block>\n\n\n',
    'comment': '<!-- a\nb -->\n@${o.f()}',
    'cdata': '<![CDATA[ x\n@${o.f()}\n]]>',
    'aftercdata': '<![CDATA[ x\n\n]]>\n@${o.f()}',
    'script': '<script>\nvar x = @${o.f()};\n</script>',
    'comp': '@${[o.f() for x in (1,)]}',
    'gen': '@${list(o.f() for x in (1,))}',
    'lambda': '@${(lambda: o.f())()}',
    'elements': '<a>\n<b>\n</b></a>\n<c\n/>@${o.f()}',
    'strippedattr': '@<i py:strip="0"\n a="${o.f()}"~/>',
}
TXT = {
    'braced': 'b @${o.f()}\nc', 'named': 'b @$o.bad\n', 'lead': '@${\no.f()~}', 'multi': '@${(1,\no.f())~}', 'aftermulti': '${(1,\n1)}\n@${o.f()}',
    'afterlead': '${\n1}\n@${o.f()}', 'if': '\n@%if o.f()\nx\n%end\n', 'ifi': '\n@{%if o.f()%}\nx\n{%end%}\n', 'inif': '\n%if 1\nx @${o.f()}\n%end\n',
    'for': '\n@%for x in o.f()\nx\n%end\n', 'infor': '\n%for x in [1]\nx\n@$o.bad\n%end\n', 'afterif': '\n%if 1\nx\n%end\n\n@${o.f()}',
    'blank': '\n\n\n%if 1\nx\n%end\n\n\n@%if o.f()\n%end\n', 'ljust': '\n\n\n {%-if 1%}\nx\n{%end%}\n\n@${o.f()}', 'else': '\n%if 0\nx\n%else\n@${o.f()}\n%end\n',
    'switch': '\n@%switch o.f()\n%case 1\nx\n%end\n', 'case': '\n%switch 1\n@%case o.f()\nx\n%end\n', 'case2': '\n%switch 1\n%case 2\nx\n@%case o.f()\nx\n%end\n',
    'def': '\n%def f()\n@${o.f()}\n%end\n\n\n${f()}', 'deflate': '\n${f()}\n%def f()\n@${o.f()}\n%end\n\n\n', 'inner': '\n%def f()\n%def g()\nx@${o.f()}\n%end\n${g()}\n%end\n\n\n${f()}',
    'call': '\n%def f(c)\n${c()}\n%end\n%call() f(%caller)\nx\n@${o.f()}\n%end\n', 'calling': '\n%def f(c)\n%end\n@%call() f(o.f())\nx\n%end\n',
    'block': '\n%block k\nx\n@${o.f()}\n%end\n\n\n', 'py': '\n@%py x = o.f()\n', 'py2': '\n@%py\nx = 1\ny = o.f()\nz = 1\n~%end\n', 'join': '\\\nb\\\n@${o.f()}',
    'dollar': '\n$$\n$$ @${o.f()}', 'tagml': '{%if (1 and\n 1)%}\n@${o.f()}{%end%}',
}


class Bad(Obj):
    @property
    def bad(self):
        return self.f()


def place(src):
    i = src.index('@')
    lo = src[:i].count('\n')
    hi = lo
    if '~' in src:
        hi = src[:src.index('~')].count('\n')
        src = src.replace('~', '')
    return src.replace('@', ''), lo, hi


def one(S, kind, k, n, gap):
    """One failing expression after any text, gap lines down."""
    src, lo, hi = place(XML[k] if kind == 'xml' else TXT[k])
    t = S.str('t', (0, n), chars('a \n'))
    pre = '<p>' if kind == 'xml' else 'p'
    base = 1 + t.count('\n') + gap
    full = pre + t + '\n' * gap + src
    if kind == 'xml':
        T = S.kajiki.XMLTemplate(full + '</p>', filename='/x/t.xml')
    else:
        T = S.kajiki.TextTemplate(full, filename='/x/t.xml')
    fr = where(S, T, dict(o=Bad(0), v='v'), '/x/t.xml')
    expect(S, fr, '/x/t.xml', base + lo, base + hi, 'line of ' + k)
    S.check(all([f == '/x/t.xml' for f, l in fr]), 'a frame of generated code', got=fr)


def wide(S, n, kind, shape):
    """Much code on one line, or code on many lines, before and after the failing place."""
    gap = S.choice('gap', [0, 1, 2, 200])
    at = S.choice('at', [0, 1, n // 2, n - 1])
    if shape == 'line':
        body = '${v}' * n + '\n' * gap + '${o.f(0)}' + '${v}' * n
        line = 1 + gap
    elif shape == 'expr':
        body = '${[' + ', '.join(['v'] * (n * 8)) + '][0]}' + '\n' * gap + '${o.f(0)}'
        line = 1 + gap
    else:
        body = '\n'.join(['${o.f(%d)}' % (i - at) + ('\n' * gap if i == at else '') for i in range(n)])
        line = 1 + at
    if kind == 'xml':
        T = S.kajiki.XMLTemplate('<p>' + body + '</p>', filename='/x/t.xml')
    else:
        T = S.kajiki.TextTemplate('p' + body, filename='/x/t.xml')
    fr = where(S, T, dict(o=Bad(0), v='v'), '/x/t.xml')
    expect(S, fr, '/x/t.xml', line, line, 'line')


WRAP = {
    'if': ('<py:if test="1">', '</py:if>'), 'for': ('<py:for each="i in (1, 2)">', '</py:for>'), 'elem': ('<b a="$v">', '</b>'),
    'with': ('<py:with vars="a=1">', '</py:with>'), 'def': ('<py:def function="ff()">', '</py:def>\n${ff()}'), 'block': ('<py:block name="kk">', '</py:block>'),
    'call': ('<py:def function="ff(c)">\n${c()}</py:def><py:call args="" function="ff(%caller)">', '</py:call>'),
    'switch': ('<py:switch test="1"><py:case value="1">', '</py:case></py:switch>'), 'strip': ('<i py:strip="1">', '</i>'),
    'text': ('${v}\n$v', '\n$v'), 'else': ('<py:if test="0">\n</py:if><py:else>', '</py:else>'), 'py': ('<?py x = 1\ny = 2?>', '<?py z = 3?>'),
}


def wrapped(S, k, w, strip=False):
    """The same inside other constructs."""
    src, lo, hi = place(XML[k])
    a, b = WRAP[w]
    m = S.choice('m', [0, 1, 5])
    base = 1 + a.count('\n') + m
    T = S.kajiki.XMLTemplate('<p>' + '\n' * m + a + src + b + '</p>', filename='t', strip_text=strip)
    expect(S, where(S, T, dict(o=Bad(0), v='v'), 't'), 't', base + lo, base + hi, 'line of %s in %s' % (k, w))


def which(S, n, kind):
    """Which of several expressions fails decides the line."""
    at = S.int('at', 0, n - 1)
    gaps = [S.choice('g%d' % i, [1, 3, 128]) for i in range(n)]
    line, lines, src = 1, [], ''
    for i in range(n):
        line += gaps[i]
        lines.append(line)
        src += '\n' * gaps[i] + ('${o.f(%d)}' % i if i % 2 == 0 else '<i a="${o.f(%d)}"/>' % i if kind == 'xml' else '{%%if o.f(%d)%%}{%%end%%}' % i)
    if kind == 'xml':
        T = S.kajiki.XMLTemplate('<p>' + src + '</p>', filename='t')
    else:
        T = S.kajiki.TextTemplate('p' + src, filename='t')
    fr = where(S, T, dict(o=Obj(at)), 't')
    for i in range(n):
        if at == i:
            expect(S, fr, 't', lines[i], lines[i], 'expression %d' % i)


def functions(S, n, kind):
    """Several functions, any order of calls, any of them failing."""
    at = S.int('at', 0, n)
    order = S.choice('order', [list(range(n)), list(range(n))[::-1]])
    gap = S.choice('gap', [1, 2, 130, 260])
    callfirst = S.choice('callfirst', [False, True])
    x = kind == 'xml'
    calls = ''.join(['${f%d()}' % i for i in order]) + '${o.f(%d)}' % n
    src, line, lines = '', 1, []
    if callfirst:
        src += calls
        main = line
    for i in range(n):
        src += '\n' * gap
        line += gap + 1
        lines.append(line)
        src += ('<py:def function="f%d()">\n${o.f(%d)}</py:def>' if x else '{%%def f%d()%%}\n${o.f(%d)}{%%end%%}') % (i, i)
    if not callfirst:
        src += '\n' + calls
        main = line + 1
    lines.append(main)
    T = S.kajiki.XMLTemplate('<p>' + src + '</p>', filename='t') if x else S.kajiki.TextTemplate('p' + src, filename='t')
    fr = where(S, T, dict(o=Obj(at)), 't')
    for i in range(n + 1):
        if at == i:
            expect(S, fr, 't', lines[i], lines[i], 'function %d' % i)


def iteration(S):
    """The failing iteration does not change the line; lines before and after are not mixed up."""
    n = S.int('n', 1, 4)
    o = Obj(-1)
    ctx = dict(o=o, n=n)
    T = S.kajiki.XMLTemplate('<p>\n<i py:for="x in range(2)"\n>a\n${o.later(n)}\n<b a="1">\n${o.later(n)}</b></i></p>', filename='t')
    fr = where(S, T, ctx, 't')
    want = 4 if n == 1 or n == 3 else 6
    expect(S, fr, 't', want, want, 'iteration')


def composed(S, what):
    """Each file of a page reports its own name and lines."""
    a = S.str('a', (0, 2), chars('x\n'))
    b = S.str('b', (0, 2), chars('x\n'))
    far = S.choice('far', [0, 130])
    at = S.choice('at', [0, 1])
    fs = S.fs()
    la, lb = a.count('\n') + far, b.count('\n')
    A = a + '\n' * far
    if what == 'include':
        fs.write('page.xml', '<p>' + A + '<py:include href="part.xml"/>\n${o.f(0)}</p>', 1)
        fs.write('part.xml', '<i>' + b + '${o.f(1)}</i>', 1)
        want = [('page.xml', 2 + la), ('part.xml', 1 + lb)]
    elif what == 'import':
        fs.write('page.xml', '<p><py:import href="lib.xml" alias="l"/>' + A + '${l.g()}\n${o.f(0)}</p>', 1)
        fs.write('lib.xml', '<i><py:def function="g()">' + b + '${o.f(1)}</py:def></i>', 1)
        want = [('page.xml', 2 + la), ('lib.xml', 1 + lb)]
    elif what == 'parent':
        fs.write('page.xml', '<py:extends href="base.xml">' + A + '<py:block name="k">\n${o.f(0)}</py:block></py:extends>', 1)
        fs.write('base.xml', '<i>' + b + '<py:block name="k"/>${o.f(1)}</i>', 1)
        want = [('page.xml', 2 + la), ('base.xml', 1 + lb)]
    elif what == 'parentfn':
        fs.write('page.xml', '<py:extends href="base.xml"><py:def function="g()">' + A + '\n${o.f(0)}</py:def></py:extends>', 1)
        fs.write('base.xml', '<i><py:def function="g()"/>' + b + '${g()}${o.f(1)}</i>', 1)
        want = [('page.xml', 2 + la), ('base.xml', 1 + lb)]
    elif what == 'text':
        fs.write('page.xml', '<p>' + A + '<py:include href="part.txt"/>\n${o.f(0)}</p>', 1)
        fs.write('part.txt', 'i' + b + '${o.f(1)}', 1)
        want = [('page.xml', 2 + la), ('part.txt', 1 + lb)]
    T = S.kajiki.FileLoader(fs.root).load('page.xml')
    names = [fs.path(x) for x in ('page.xml', 'part.xml', 'lib.xml', 'base.xml', 'part.txt')]
    fr = where(S, T, dict(o=Obj(at)), *names)
    for i in (0, 1):
        if at == i:
            expect(S, fr, fs.path(want[i][0]), want[i][1], want[i][1], what)


def doctype(S):
    """Declarations and comments before the root element count as lines."""
    x = S.choice('x', ['', '<?xml version="1.0"?>', '<?xml version="1.0"?>\n', '\n' * 0])
    d = S.choice('d', ['', '<!DOCTYPE html>', '<!DOCTYPE html>\n', '<!DOCTYPE html\n>\n', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n'
                       '  "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n'])
    c = S.choice('c', ['', '\n', '<!-- a\n -->', '<!-- -->\n\n'])
    strip = S.choice('strip', [False, True])
    pre = x + d + c
    T = S.kajiki.XMLTemplate(pre + '<p>\n ${o.f()}</p>', filename='t', strip_text=strip)
    w = pre.count('\n') + 2
    expect(S, where(S, T, dict(o=Obj(0)), 't'), 't', w, w, 'after a doctype')


def stripped(S, n):
    """strip_text does not move lines."""
    t = S.str('t', (0, n), chars('a \n'))
    u = S.str('u', (0, n), chars('a \n'))
    T = S.kajiki.XMLTemplate('<p>' + t + '<b> </b>' + u + '${o.f()}</p>', filename='t', strip_text=True)
    w = 1 + t.count('\n') + u.count('\n')
    expect(S, where(S, T, dict(o=Obj(0)), 't'), 't', w, w, 'strip_text')


def recompiled(S):
    """A second failing render, or a render that succeeded before, changes nothing."""
    k = S.choice('k', [0, 1, 2])
    T = S.kajiki.XMLTemplate('<p>\n${o.f(0)}\n<i a="${o.f(1)}"/></p>', filename='t')
    for j in range(2):
        if k == 2:
            T(dict(o=Obj(9))).render()
        at = S.choice('at%d' % j, [0, 1])
        expect(S, where(S, T, dict(o=Obj(at)), 't'), 't', 2 + at, 2 + at, 'render %d' % j)


GAPS = [0, 125, 126, 127, 128, 129, 254, 255, 256, 257, 300, 383, 511, 512, 600]


def plan(tier):
    big = tier != 'quick'
    P = []
    for kind, d in (('xml', XML), ('text', TXT)):
        for i, k in enumerate(sorted(d)):
            P.append(('one', dict(kind=kind, k=k, n=3 if big else 2, gap=0)))
            for g in (GAPS[1:] if big or k in ('braced', 'def', 'attr', 'call') else [GAPS[1 + (i * 5) % 14], GAPS[1 + (i * 5 + 7) % 14]]):
                P.append(('one', dict(kind=kind, k=k, n=1, gap=g)))
        P += [('which', dict(n=n, kind=kind)) for n in (2, 3)]
        P += [('functions', dict(n=n, kind=kind)) for n in (1, 2, 3)]
    for i, k in enumerate(sorted(XML)):
        for j, w in enumerate(sorted(WRAP)):
            if k in ('callee', 'call', 'calling', 'def', 'deflate', 'defattr', 'defs', 'deep', 'argcall', 'inner', 'innerdeep', 'afterdef', 'block') and w in (
                    'def', 'call', 'for', 'block'):
                continue
            if big or (i + j) % 4 == 0:
                P.append(('wrapped', dict(k=k, w=w, strip=(i + j) % 8 == 0)))
    P += [('wide', dict(n=n, kind=k, shape=s)) for k in ('xml', 'text') for n, s in ((5, 'line'), (30, 'line'), (70, 'line'), (20, 'expr'), (50, 'expr'), (150, 'lines'))]
    for kind in ('xml', 'text'):
        P += [('one', dict(kind=kind, k=k, n=1, gap=g)) for k in ('braced', 'for') for g in ((2000, 9000) if big else (2000,))]
    P += [('composed', dict(what=w)) for w in ('include', 'import', 'parent', 'parentfn', 'text')]
    P += [('iteration', {}), ('doctype', {}), ('stripped', dict(n=3 if big else 2)), ('recompiled', {})]
    return P
