"""A directive means the same as attribute and as element; several on one element nest in a fixed order."""
import itertools

from symkj.api import ANY, LOWER, chars
from props.ref import esc

BOUNDS = ('all sets of up to three (thorough four) of py:def, case, else, for, if, with, replace on one element, with and without strip, content, attrs and '
          'ordinary attributes, written in 3 orders, in 6 places; every pair of an element directive and an attribute directive; symbolic '
          'conditions, sequences of 0..2 symbolic items, values; nested py:strip and py:call whose generated names get arbitrary numbers (5 draws)')
OUTSIDE = ('py:switch as an attribute (refused by design), py:extends together with other directives; text between py:if and py:else')

ORDER = ['def', 'case', 'else', 'for', 'if', 'with', 'replace']
ARG = dict([('def', 'function'), ('case', 'value'), ('else', None), ('for', 'each'), ('if', 'test'), ('with', 'vars'), ('replace', 'value'), ('block', 'name'),
            ('call', 'function')])
VAL = dict([('def', 'f()'), ('case', '1'), ('else', ''), ('for', 'x in s'), ('if', 'x != a'), ('with', 'y=x + b'), ('replace', 'y'), ('block', 'k'),
            ('call', 'g(%caller)')])


def context(S, dirs):
    n = S.choice('n', [0, 1, 2]) if 'for' in dirs else 0
    return dict(s=[S.str('s%d' % i, (1, 1), chars('ab')) for i in range(n)], x='a', y='q', a=S.str('a', (1, 1), chars('abz')), b='!',
                w=S.choice('w', [1, 2]) if 'case' in dirs else 1, c=S.bool('c') if 'else' in dirs else False,
                d=S.bool('d'), v=S.str('v', (0, 1), ANY))


def around(dirs, s, pos):
    if 'case' in dirs:
        s = '<py:switch test="w">' + s + '</py:switch>'
    if 'else' in dirs:
        s = '<py:if test="c">I</py:if>' + s
    if 'def' in dirs:
        s = s + '${f()}${f()}'
    return PLACE[pos].replace('@', s)


PLACE = {'child': '<r>@</r>', 'root': '@', 'comment': '<!-- c -->@', 'hidden': '<!--! c -->\n@', 'directive': '<r><py:if test="True">@</py:if></r>',
         'second': '<r><i/>t@<i/></r>', 'stripped': '<r py:strip="">@</r>', 'loop': '<r><py:for each="i in (1, 2)">@</py:for></r>',
         'withattr': '<r py:with="i=1">@</r>', 'block': '<r><py:block name="m">@</py:block></r>'}

OWN = {'': ('', '<u>$x</u>$y'), 'strip': (' py:strip="d"', '<u>$x</u>$y'), 'content': (' py:content="v"', ''), 'attrs': (' py:attrs="dict(z=v)"', '$x'),
       'plain': (' q="${y}" a="1"', '$x'), 'all': (' q="$x" py:strip="d" py:attrs="dict(z=v)" py:content="y"', ''), 'empty': ('', '')}


def elem(d, inner):
    if ARG[d] is None:
        return '<py:%s>%s</py:%s>' % (d, inner, d)
    return '<py:%s %s="%s">%s</py:%s>' % (d, ARG[d], VAL[d], inner, d)


def both(S, dirs, own, pos, kind='attrs'):
    ctx = context(S, dirs)
    attrs, body = OWN[own]
    inner = '<b%s>%s</b>' % (attrs, body)
    nested = inner
    for d in reversed([d for d in ORDER if d in dirs]):
        nested = elem(d, nested)
    want = S.kajiki.XMLTemplate(around(dirs, nested, pos))(ctx).render()
    how = S.choice('how', ['given', 'reversed', 'rotated'] if len(dirs) > 1 else ['given', 'reversed'])
    ds = [' py:%s="%s"' % (d, VAL[d]) for d in dirs]
    if how == 'reversed':
        a = attrs + ''.join(reversed(ds))
    elif how == 'rotated':
        a = ''.join(ds[1:]) + attrs + ds[0]
    else:
        a = ''.join(ds) + attrs
    got = S.kajiki.XMLTemplate(around(dirs, '<b%s>%s</b>' % (a, body), pos))(ctx).render()
    S.eq(got, want, 'attribute form and element form')


def mixed(S, outer, inner, pos):
    """A directive element with a directive attribute: the same fixed order."""
    dirs = [outer, inner]
    ctx = context(S, dirs)
    body = '<u>$x</u>$y'
    nested = body
    for d in reversed([d for d in ORDER if d in dirs]):
        nested = elem(d, nested)
    want = S.kajiki.XMLTemplate(around(dirs, nested, pos))(ctx).render()
    own = ' %s="%s"' % (ARG[outer], VAL[outer]) if ARG[outer] else ''
    a = ' py:%s="%s"' % (inner, VAL[inner])
    a = own + a if S.bool('first') else a + own
    got = S.kajiki.XMLTemplate(around(dirs, '<py:%s%s>%s</py:%s>' % (outer, a, body, outer), pos))(ctx).render()
    S.eq(got, want, 'directive on a directive element')


def meaning(S, dirs):
    """The nesting itself, from first principles."""
    ctx = context(S, dirs)
    ds = ''.join([' py:%s="%s"' % (d, VAL[d]) for d in sorted(dirs)])
    got = S.kajiki.XMLTemplate(around(dirs, '<b%s>$x$y</b>' % ds, 'child'))(ctx).render()

    def leaf(x, y):
        if 'replace' in dirs:
            return esc(y)
        return '<b>' + esc(x) + esc(y) + '</b>'

    def with_(x, y):
        return leaf(x, x + ctx['b'] if 'with' in dirs else y)

    def if_(x, y):
        if 'if' in dirs:
            if x != ctx['a']:
                return with_(x, y)
            return ''
        return with_(x, y)

    def for_():
        if 'for' in dirs:
            return ''.join([if_(x, ctx['y']) for x in ctx['s']])
        return if_(ctx['x'], ctx['y'])
    out = for_()
    if 'case' in dirs:
        out = out if ctx['w'] == 1 else ''
    if 'else' in dirs:
        out = 'I' if ctx['c'] else out
    if 'def' in dirs:
        out = out * 2
    S.eq(got, '<r>' + out + '</r>', 'nesting')


def block(S, form, how):
    """py:block with other directives; blocks see the page's variables."""
    c = S.bool('c')
    v = S.str('v', (0, 1), ANY)
    pair = {
        'plain': ('<b py:block="k" a="$v">$v</b>', '<py:block name="k"><b a="$v">$v</b></py:block>'),
        'if': ('<b py:if="c" py:block="k">$v</b>', '<py:if test="c"><py:block name="k"><b>$v</b></py:block></py:if>'),
        'for': ('<b py:block="k" py:for="i in (1, 2)">$v</b>', '<py:for each="i in (1, 2)"><py:block name="k"><b>$v</b></py:block></py:for>'),
        'strip': ('<b py:strip="c" py:block="k">$v</b>', '<py:block name="k"><b py:strip="c">$v</b></py:block>'),
        'content': ('<b py:block="k" py:content="v"/>', '<py:block name="k"><b py:content="v"/></py:block>'),
    }[form]
    K = S.kajiki

    def page(b):
        if how == 'alone':
            return K.XMLTemplate('<r>' + b + '</r>')(dict(c=c, v=v)).render()
        child = '<py:extends href="p">' + ('<i py:block="k">O$v</i>' if how == 'over' else '<py:block name="k">[${parent_block()}]</py:block>') + '</py:extends>'
        return K.MockLoader({'p': K.XMLTemplate('<r>' + b + '</r>'), 'm': K.XMLTemplate(child)}).import_('m')(dict(c=c, v=v)).render()
    got = page(pair[0])
    S.eq(got, page(pair[1]), 'block as attribute and as element')
    e = esc(v)
    own = {'plain': '<b a="' + e + '">' + e + '</b>', 'strip': e if c else '<b>' + e + '</b>'}.get(form, '<b>' + e + '</b>')
    one = own if how == 'alone' else '<i>O' + e + '</i>' if how == 'over' else '[' + own + ']'
    n = {'if': 1 if c else 0, 'for': 2}.get(form, 1)
    S.eq(got, '<r>' + one * n + '</r>' if n else '<r></r>', 'block')


def call(S, how):
    """py:call as attribute and as element."""
    v = S.str('v', (0, 2), ANY)
    c = S.bool('c')
    g = '<py:def function="g(caller, k=1)">[${caller()}$k]</py:def>'
    pair = {
        'plain': ('<b py:call="g(%caller)">$v</b>', '<py:call function="g(%caller)"><b>$v</b></py:call>'),
        'if': ('<b py:call="g(%caller)" py:if="c">$v</b>', '<py:call function="g(%caller)"><py:if test="c"><b>$v</b></py:if></py:call>'),
        'for': ('<b py:for="i in (1, 2)" py:call="g(%caller, 2)">$v$i</b>', '<py:call function="g(%caller, 2)"><py:for each="i in (1, 2)"><b>$v$i</b></py:for></py:call>'),
        'with': ('<b py:with="w=v" py:call="g(%caller)">$w</b>', '<py:call function="g(%caller)"><py:with vars="w=v"><b>$w</b></py:with></py:call>'),
    }[how]
    got, want = [S.kajiki.XMLTemplate('<r>' + g + p + '</r>')(dict(c=c, v=v)).render() for p in pair]
    S.eq(got, want, 'py:call')
    e = esc(v)
    S.eq(got, '<r>[' + {'plain': '<b>' + e + '</b>1', 'with': '<b>' + e + '</b>1', 'if': ('<b>' + e + '</b>' if c else '') + '1',
                        'for': '<b>' + e + '1</b><b>' + e + '2</b>2'}[how] + ']</r>', 'meaning')


def extends(S, how):
    v = S.str('v', (0, 2), ANY)
    K = S.kajiki
    child = {'elem': '<py:extends href="p"><py:block name="k">C$v</py:block></py:extends>',
             'attr': '<html py:extends="p"><py:block name="k">C$v</py:block></html>',
             'strip': '<html py:extends="p" py:strip=""><py:block name="k">C$v</py:block></html>',
             'comment': '<!-- x --><py:extends href="p"><py:block name="k">C$v</py:block></py:extends>',
             'commentattr': '<!--! x --><html py:extends="p" py:strip=""><py:block name="k">C$v</py:block></html>'}[how]
    out = K.MockLoader({'p': K.XMLTemplate('<r><py:block name="k">P</py:block></r>'), 'm': K.XMLTemplate(child)}).import_('m')(dict(v=v)).render()
    want = '<r>C' + esc(v) + '</r>'
    if how == 'attr':
        want = '<html>' + want + '</html>'
    S.eq(out, want, 'py:extends')


def visible(S, dirs):
    """Directives that use each other's variables, so that any other nesting shows."""
    x, y, a, b = [S.str(k, (1, 1), chars('ab<')) for k in ('x', 'y', 'a', 'b')]
    vals = {'for': 'x in [y, y + x]', 'if': 'y != a and x != a', 'with': 'y=x + b;x=b', 'replace': 'x + y'}
    ds = [' py:%s="%s"' % (d, vals[d]) for d in dirs]
    if S.choice('rev', [False, True]):
        ds.reverse()
    fn = S.choice('fn', [False, True])
    if fn:
        src = '<r><py:def function="g(x, y)"><b' + ''.join(ds) + '>$x$y</b>$x$y</py:def>${g(x, y)}</r>'
    else:
        src = '<r><py:with vars="x=p;y=q"><b' + ''.join(ds) + '>$x$y</b>$x$y</py:with></r>'
    out = S.kajiki.XMLTemplate(src)(dict(x=x, y=y, a=a, b=b) if fn else dict(p=x, q=y, a=a, b=b)).render()

    def with_(x, y):
        if 'with' in dirs:
            x, y = b, x + b
        return esc(x + y) if 'replace' in dirs else '<b>' + esc(x + y) + '</b>'

    def if_(x, y):
        if 'if' in dirs and not (y != a and x != a):
            return ''
        return with_(x, y)
    last = x
    if 'for' in dirs:
        want = ''
        for last in [y, y + x]:
            want = want + if_(last, y)
    else:
        want = if_(x, y)
    S.eq(out, '<r>' + want + esc(last + y) + '</r>', 'nesting')


def generated(S, form):
    """Directives that need names of their own, whatever numbers those get."""
    S.randint_arbitrary(5)
    a, b = S.bool('a'), S.bool('b')
    v = S.str('v', (0, 1), ANY)

    def tag(t, cond, inner, attrs=''):
        return inner if cond else '<' + t + attrs + '>' + inner + '</' + t + '>'
    if form == 'strip':
        src = '<a py:strip="a" k="$v"><b py:strip="b">$v</b></a>'
        want = tag('a', a, tag('b', b, esc(v)), ' k="' + esc(v) + '"')
    elif form == 'call':
        src = ('<py:def function="f(c)">(${c()})</py:def><py:call args="" function="f(%caller)"><b py:strip="b"><py:call args="" function="f(%caller)">'
               '<a py:strip="a">$v</a></py:call></b></py:call>')
        want = '(' + tag('b', b, '(' + tag('a', a, esc(v)) + ')') + ')'
    elif form == 'attrs':
        src = '<a py:strip="a" k="$v" py:attrs="[(\'z\', v)]"><b py:strip="b" py:attrs="[(\'y\', v)]">$v</b></a>'
        want = tag('a', a, tag('b', b, esc(v), ' y="' + esc(v) + '"'), ' k="' + esc(v) + '" z="' + esc(v) + '"')
    else:
        src = '<a py:strip="a"><py:for each="w in [b, not b]"><b py:strip="w">$v</b></py:for></a>'
        want = tag('a', a, tag('b', b, esc(v)) + tag('b', not b, esc(v)))
    S.eq(S.kajiki.XMLTemplate('<r>' + src + '</r>')(dict(a=a, b=b, v=v)).render(), '<r>' + want + '</r>', 'generated names')


def plan(tier):
    big = tier != 'quick'
    P = []
    for k in (1, 2, 3, 4) if big else (1, 2, 3):
        for ds in itertools.combinations(ORDER, k):
            if len(set(ds) & {'def', 'case', 'else'}) > 1:
                continue
            P.append(('meaning', dict(dirs=list(ds))))
            for own in sorted(OWN):
                if 'replace' in ds and own not in ('', 'plain') and not big:
                    continue
                if k < 3 or own in ('', 'all', 'strip') or big:
                    P.append(('both', dict(dirs=list(ds), own=own, pos='child')))
            free = not set(ds) & {'def', 'case', 'else'}
            for pos in ('directive', 'second', 'stripped', 'loop', 'withattr', 'block') + (('root', 'comment', 'hidden') if free else ()):
                if pos in ('root', 'comment', 'hidden') and not free:
                    continue
                if 'def' in ds and pos in ('loop', 'block', 'directive', 'withattr'):
                    continue
                if k == 3 and not big and pos not in ('root', 'comment'):
                    continue
                P.append(('both', dict(dirs=list(ds), own='', pos=pos)))
                if pos in ('root', 'comment') and 'replace' not in ds:
                    P.append(('both', dict(dirs=list(ds), own='all', pos=pos)))
    for o in ORDER:
        for i in ORDER:
            if o == i or {o, i} <= {'def', 'case', 'else'} or o == 'replace':
                continue
            P.append(('mixed', dict(outer=o, inner=i, pos='child')))
            if not {o, i} & {'def', 'case', 'else'}:
                P.append(('mixed', dict(outer=o, inner=i, pos='root')))
                P.append(('mixed', dict(outer=o, inner=i, pos='comment')))
    P += [('block', dict(form=f, how=h)) for f in ('plain', 'if', 'for', 'strip', 'content') for h in ('alone', 'over', 'super')]
    P += [('call', dict(how=h)) for h in ('plain', 'if', 'for', 'with')]
    P += [('extends', dict(how=h)) for h in ('elem', 'attr', 'strip', 'comment', 'commentattr')]
    P += [('generated', dict(form=f)) for f in ('strip', 'call', 'attrs', 'loop')]
    for k in (2, 3, 4):
        P += [('visible', dict(dirs=list(ds))) for ds in itertools.combinations(['for', 'if', 'with', 'replace'], k)]
    return P
