"""Invalid templates are refused with the file, the line and the source."""
from symkj.api import LOWER, XMLNOCR, chars, without

BOUNDS = ('42 kinds of ill-formed XML, 30 of invalid expressions and misplaced directives and 24 of invalid Python in directives, after 0..140 '
          'lines and symbolic text of 0..2 characters with line breaks, after a doctype of any kind, inside every enclosing construct, on the first, a middle and the '
          'last line of the template; symbolic text of 0..2 (thorough 3) arbitrary XML characters on the quoted lines; py:else after every two of 15 kinds of siblings; text templates')
OUTSIDE = ('the wording of messages; columns; the line of an invalid Python expression in a directive (its generated code is quoted instead); which line of a '
           'construct that spans several')

# @ marks the line that is reported
PARSE = ['<b>@</p>', '<b></i>@', '@<b', '<b a=@>x</b>', '<b a@>x</b>', '<b a="1" a="2"@/>', '<b a="<"@/>', '@&foo;', 'x @& y', '@&;', '@&#xZZ;',
         '<@1/>', '< b/>@', '</@b>', '<![CDATA[x@', '<!-- -- @-->', '<!-- @', '<b a="1@', '<b a="&"@/>', '<b @"/>', '<b a=\'1"@/>', '<?py x@',
         '&#0;@', '@&nosuchthing;', '<b>\n<i>\n</b>@', '<b c="1"d="2"@/>', '<b>\n</b\n>\n@</i>', '<py:if test="1">@</py:for>', '<a:b c:d="1" c:d="2"@/>', ']]>@']
COMPILE = ['@${1 +}', '@${', '@${}', '@${ }', '@${v', '@${v)}', '@${1 2}', '@${x = 1}', '@${for}', '@${(}', '@${"}', '@${import os}', '@${[}', '@${v;w}',
           'a $$ $$ b\n@${1 +}', '${1}\n\n@${1 +}', '${(1,\n2)}\n@${1 +}', '<b>@${1 +}</b>', '<b\n/>\n@${*}',
           '<py:if test="1">x</py:if> @<py:else>y</py:else>', '@<py:else>y</py:else>', '<b/>@<py:else>x</py:else>',
           '<py:if test="1">x</py:if>\n<!-- -->@<py:else>y</py:else>', '@<i py:else="">x</i>', '<i py:if="1"/>x\n@<i py:else="">x</i>',
           '@<py:switch test="1">x</py:switch>', '@<py:switch test="1"><b/></py:switch>', '@<py:switch test="1"><py:case value="1">x</py:case>y</py:switch>',
           '@<py:switch test="1"><py:if test="1">x</py:if></py:switch>', '@<py:switch test="1">\n<py:case value="1"/>${1}</py:switch>']
ATTRS = ['@<b a="${1 +}"/>', '@<b a="${"/>', '@<b a="x${v"/>', '@<b a="1" c="${x y}"/>']
SYNTAX = ['<py:if test="1 +">x</py:if>', '<i py:if="1 +">x</i>', '<py:for each="x i y">x</py:for>', '<i py:for="x">x</i>', '<py:for each="x in">x</py:for>',
          '<py:def function="f(">x</py:def>', '<i py:def="1()">x</i>', '<py:def function="f(x y)">x</py:def>', '<py:with vars="a=1 +">x</py:with>',
          '<py:switch test="1 +"><py:case value="1">x</py:case></py:switch>', '<py:switch test="1"><py:case value="1 +">x</py:case></py:switch>',
          '<i py:content="1 +"/>', '<i py:replace="1 +"/>', '<i py:strip="1 +">x</i>', '<i py:attrs="{"/>', '<?py x = ?>', '<?py if 1: ?>', '<?py %import ?>',
          '<py:call args="x y" function="f(%caller)">x</py:call>', '<py:call args="x" function="f(">x</py:call>', '<py:if>x</py:if>', '<py:for>x</py:for>',
          '<py:case value="1">x</py:case>', '<i py:case="1">x</i>']
TEXT = ['@${1 +}', '@${', '@${}', '@${v', '@${v)}', '@${1 2}', '@${x = 1}', '@${(}', '@${"}', '${1}\n\n@${1 +}', '\n%if 1\n@${1 +}\n%end\n', '\n\n\n%if 1\nx\n%end\n\n@${1 +}',
        '{%if 1%}\n{%end%}\n@${1 +}', '$$\n@${1 +}', '${(1,\n2)}\n@${1 +}', '${\n1}\n@${1 +}']


def errors(S):
    from kajiki.template import KajikiSyntaxError
    from kajiki.xml_template import XMLTemplateCompileError, XMLTemplateParseError
    return XMLTemplateParseError, XMLTemplateCompileError, KajikiSyntaxError


def snippet(src, line):
    lines = src.split('\n')

    def at(i):
        return lines[i - 1] if 1 <= i <= len(lines) else ''
    return ''.join([('\t --> ' if i == line else '\t     ') + at(i) + '\n' for i in range(line - 2, line + 3)])


def refused(S, src, line, kinds, name='dir/f.xml', make=None):
    try:
        (make or S.kajiki.XMLTemplate)(src, filename=name)
    except kinds as e:
        S.check(e.filename == name, 'file', got=e.filename)
        S.check(e.linenum == line, 'line', got=e.linenum, want=line)
        msg = str(e)
        head = '[' + name + ':' + str(line) + '] '
        S.eq(msg[:len(head)], head, 'head of the message')
        tail = '\n' + snippet(src, line)
        S.eq(msg[len(msg) - len(tail):], tail, 'quoted source')
        return
    except Exception as e:
        S.fail('wrong kind of error', got=type(e).__name__)
    S.fail('an invalid template was accepted')


def mark(s):
    return s.replace('@', ''), s[:s.index('@')].count('\n')


DOCTYPES = ['', '\n\n', ' \t\n  ', '\n<!DOCTYPE html>\n\n', '<!DOCTYPE html>\n', '<!DOCTYPE html>', '<!DOCTYPE html\n>\n', '<?xml version="1.0"?>\n<!DOCTYPE html>\n', '<!-- c\n -->\n',
            '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n  "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n']


def parse(S, i):
    s, k = mark(PARSE[i])
    d = S.choice('d', DOCTYPES)
    m = S.choice('m', [0, 1, 4, 140])
    end = S.choice('end', ['', '\n\nx\n\n\n'])
    if PARSE[i].endswith('@') and PARSE[i] not in ('<b></i>@', '< b/>@', '&#0;@', ']]>@', '<b>\n<i>\n</b>@') or '"' in s and s.count('"') % 2:
        end = ''          # noticed at the end only
    t = S.str('t', (0, 1), LOWER)
    src = d + '<p>' + '\n' * m + t + s + end + '</p>'
    E = errors(S)
    try:
        S.kajiki.XMLTemplate(src, filename='F')
    except E[0] as e:
        ln = e.linenum
        base = d.count('\n') + m + 1
        S.check(base <= ln, 'line too small', got=ln, want=base)
        S.check(ln <= base + s.count('\n') + (0 if end == '' else 5), 'line too large', got=ln)
        if end != '':
            pass
        S.check(e.filename == 'F', 'file')
        msg = str(e)
        S.eq(msg[:4], '[F:' + str(ln)[:1], 'head')
        tail = '\n' + snippet(src, ln)
        S.eq(msg[len(msg) - len(tail):], tail, 'quoted source')
        return
    except Exception as e:
        S.fail('wrong kind of error', got=type(e).__name__)
    S.fail('ill-formed XML was accepted')


def exactly(S, i):
    """Errors noticed where they are."""
    s, k = mark(['@&foo;', '@</b>', '@<b></i>', '@< ', '<b>\n@</p>', '<b\n>\n@</i>', 'a\nb @& ', '@<b a=1/>', '\n\n@<b c="1" c="2"/>', '@<1/>', 'x\n@&nosuch;'][i])
    d = S.choice('d', DOCTYPES)
    t = S.str('t', (0, 2), chars('x\n'))
    end = S.choice('end', ['', '\n\nx\n\n\n'])
    refused(S, d + '<p>' + t + s + end + '</p>', d.count('\n') + 1 + t.count('\n') + k, errors(S)[0])


def compile_(S, i, n):
    """Invalid expressions and misplaced directives."""
    s, k = mark(COMPILE[i])
    d = S.choice('d', DOCTYPES)
    t = S.str('t', (0, 2), chars('x\n')) if n is None else S.str('t', (0, n), without(XMLNOCR, '&<>$'))
    m = S.choice('m', [0, 3])
    lead = S.choice('lead', ['', 'q\nq\n q', '\n$$\n$$', 'q ${v}\n$v ', 'q\n&amp;\n<!-- \n -->'])
    if '<py:else' in s or 'py:else' in s:
        t = t + 'q'
    # a construct that is not terminated swallows what follows up to the next tag
    src = d + '<p>' + t + '<b/>' + '\n' * m + lead + s + '<i/>\nafter</p>'
    refused(S, src, d.count('\n') + 1 + t.count('\n') + m + lead.count('\n') + k, errors(S)[1])


def attr(S, i):
    s, k = mark(ATTRS[i])
    t = S.str('t', (0, 2), chars('x\n'))
    refused(S, '<p>' + t + s + '\n</p>', 1 + t.count('\n') + k, errors(S)[1])


WRAP = {'if': ('<py:if test="1">', '</py:if>'), 'for': ('<py:for each="i in (1, 2)">', '</py:for>'), 'elem': ('<b\n a="$v">', '</b>'),
        'with': ('<py:with vars="a=1">', '</py:with>'), 'def': ('<py:def function="ff()">', '</py:def>\n${ff()}'), 'block': ('<py:block name="kk">', '</py:block>'),
        'call': ('<py:def function="ff(c)">\n${c()}</py:def><py:call args="" function="ff(%caller)">', '</py:call>'),
        'case': ('<py:switch test="1"><py:case value="1">', '</py:case></py:switch>'), 'strip': ('<i py:strip="1">', '</i>'),
        'attr': ('<i py:if="1" py:for="x in y">', '</i>'), 'else': ('<py:if test="0">\n</py:if><py:else>', '</py:else>'), 'py': ('<?py x = 1\ny = 2?>\n', ''),
        'cdata': ('<![CDATA[\n]]>', ''), 'comment': ('<!-- \n -->', ''), 'extends': ('<py:extends href="nowhere">', '</py:extends>')}


def wrapped(S, i, w, strip):
    s, k = mark(COMPILE[i])
    a, b = WRAP[w]
    m = S.choice('m', [0, 2, 130])
    src = '<p>' + '\n' * m + a + '<u/>' + s + '<u/>\n' + b + '</p>'
    if 'py:else' in s and a.startswith('<py:'):
        # Python itself finds this one
        try:
            S.kajiki.XMLTemplate(src, strip_text=strip)
        except errors(S):
            S.check(True, 'refused')
            return
        S.fail('accepted')
    refused(S, src, 1 + m + a.count('\n') + k, errors(S)[1],
            make=lambda src, filename: S.kajiki.XMLTemplate(src, filename=filename, strip_text=strip))


KIDS = ['<py:if test="v">i</py:if>', '<b py:if="v">i</b>', '<py:for each="i in (1, 2)">f</py:for>', '<b/>', 'q', '\n', '<!--! c -->', '<?py x = 1?>', '${v}',
        '<py:with vars="w=1">w</py:with>', '<py:block name="bb">b</py:block>', '<py:def function="ff()">d</py:def>', '<i py:else="">e</i>', '<py:else>e</py:else>', '']


def siblings(S, first, kind):
    """An else is refused unless an if stands directly before it."""
    a = S.choice('a', KIDS)
    m = S.choice('m', [0, 1])
    bad = kind == 'attr' and '<u\n py:else="">l</u>' or '<py:else>l</py:else>'
    pre = '<p>' + '\n' * m + KIDS[first] + a
    src = pre + bad + '\nafter</p>'
    ok = [KIDS[0], KIDS[1]]
    before = a or KIDS[first]
    # (one of the first two may be an else in the wrong place itself)
    wrong = None
    if KIDS[first] in KIDS[12:14]:
        wrong = 1 + m
    elif a in KIDS[12:14] and KIDS[first] not in ok:
        wrong = 1 + m + KIDS[first].count('\n')
    elif before not in ok:
        wrong = pre.count('\n') + 1
    if wrong is not None:
        refused(S, src, wrong, errors(S)[1])
    else:
        S.check(callable(S.kajiki.XMLTemplate(src)), 'accepted')


def syntax(S, i):
    """Invalid Python in a directive is refused when compiling."""
    m = S.choice('m', [0, 2])
    t = S.str('t', (0, 1), LOWER)
    try:
        S.kajiki.XMLTemplate('<p>' + '\n' * m + t + SYNTAX[i] + '</p>', filename='F')
    except errors(S) as e:
        S.check(True, 'refused')
        return
    except Exception as e:
        S.fail('wrong kind of error', got=type(e).__name__)
    S.fail('invalid Python was accepted')


def textual(S, i):
    """Text templates."""
    s, k = mark(TEXT[i])
    t = S.str('t', (0, 2), chars('x\n'))
    m = S.choice('m', [0, 3])
    lead = S.choice('lead', ['', 'q\nq\n q', 'q\n$$\n$$', 'q ${v}\n$v ', 'q\\\nq'])
    src = 'p' + t + '\n' * m + lead + s
    refused(S, src, 1 + t.count('\n') + m + lead.count('\n') + k, errors(S)[2], make=S.kajiki.TextTemplate)


def quoted(S, n, where):
    """The quoted lines are those of the template, whatever characters they contain."""
    a = S.str('a', (0, n), without(XMLNOCR, '&<>$\n'))
    b = S.str('b', (0, 1), without(XMLNOCR, '&<>$\n'))
    if where == 'xml':
        refused(S, '<p>\n' + a + '\n' + b + '\n' + a + '${1 +}' + '<i/>\n' + b + '\n' + a + '</p>', 4, errors(S)[1])
    elif where == 'parse':
        refused(S, '<p>\n' + a + '\n' + b + '\n' + a + '&foo;' + '\n' + b + '\n' + a + '</p>', 4, errors(S)[0])
    else:
        c = S.str('c', (0, n), without(XMLNOCR, '$%{\\\n'))
        refused(S, 'p\n' + c + '\n' + c + '\n' + c + '${1 +}', 4, errors(S)[2], make=S.kajiki.TextTemplate)


def files(S):
    """Errors in the files of a page name that file."""
    m = S.choice('m', [0, 2, 128])
    which = S.choice('which', ['part.xml', 'base.xml', 'lib.xml', 'page.xml'])
    bad = S.choice('bad', [0, 1])
    fs = S.fs()
    srcs = {'page.xml': '<p><py:import href="lib.xml"/><py:include href="part.xml"/><py:extends href="base.xml"/></p>', 'part.xml': '<i/>',
            'base.xml': '<b/>', 'lib.xml': '<l/>'}
    srcs[which] = '<p>' + '\n' * m + ('${1 +}<i/>' if bad else '<b>') + '</p>'
    for k in sorted(srcs):
        fs.write(k, srcs[k], 1)
    E = errors(S)
    try:
        S.kajiki.FileLoader(fs.root).load('page.xml')({}).render()
    except E[1 if bad else 0] as e:
        S.check(e.filename == fs.path(which), 'file', got=e.filename)
        S.check(e.linenum == m + 1, 'line', got=e.linenum)
        S.eq(str(e).split('\n')[0].split('] ')[0], '[' + fs.path(which) + ':' + str(m + 1), 'head')
        return
    S.fail('accepted')


def plan(tier):
    big = tier != 'quick'
    P = [('parse', dict(i=i)) for i in range(len(PARSE))]
    P += [('exactly', dict(i=i)) for i in range(11)]
    P += [('compile_', dict(i=i, n=None)) for i in range(len(COMPILE))]
    P += [('attr', dict(i=i)) for i in range(len(ATTRS))]
    P += [('syntax', dict(i=i)) for i in range(len(SYNTAX))]
    P += [('textual', dict(i=i)) for i in range(len(TEXT))]
    for i in range(len(COMPILE)):
        for j, w in enumerate(sorted(WRAP)):
            if 'py:else' in COMPILE[i] and w in ('case', 'attr'):
                continue
            if big or (i + j) % 4 == 0:
                P.append(('wrapped', dict(i=i, w=w, strip=(i + j) % 8 == 0)))
    P += [('quoted', dict(n=3 if big else 2, where=w)) for w in ('xml', 'parse', 'text')]
    P += [('files', {})]
    P += [('siblings', dict(first=i, kind=k)) for i in range(len(KIDS)) for k in ('element', 'attr')]
    return P
