"""Serialisation of elements by output mode."""
from symkj.api import ANY, LOWER, chars, without, XMLNOCR
from props.ref import BOOLEAN, VOID, empty, esc, esc_text
from props.large import elements

BOUNDS = ('every one of 10 void, 2 raw-text and 13 ordinary element names at each of two levels, each empty, written as a pair, '
          'or with content (symbolic text, expression, child, comment, py:content, directive giving nothing); symbolic static '
          'text of 0..3 (thorough 4) XML characters and values of 0..3 characters inside script and style; '
          '3 modes given explicitly or by 4 doctypes; cdata_scripts on and off; strip_text on and off; py:strip with '
          'symbolic condition; fragments')
OUTSIDE = ('py:content on void elements; element names in upper case; comments and elements inside script or style; '
           'text containing "]]>" inside CDATA')

MODES = ['xml', 'html', 'html5']
PLAIN = ['p', 'div', 'b', 'title', 'textarea', 'td', 'li', 'option', 'x-y', 'n:s', 'iframe', 'select', 'body']


def kw(mode, **more):
    d = dict(is_fragment=True, **more)
    if mode != 'default':
        d['mode'] = mode
    return d


def tag_empty(S, mode, form, attrs):
    """An element without content, for every kind of name."""
    t = S.choice('tag', list(VOID) + PLAIN + ['script', 'style'])
    a, w = {'none': ('', ''), 'one': (' id="i"', ' id="i"'), 'two': (' id="i" alt="&lt;"', ' alt="&lt;" id="i"'),
            'expr': (' id="${1 + 1}"', ' id="2"')}[attrs]
    src = '<%s%s/>' % (t, a) if form == 'self' else '<%s%s></%s>' % (t, a, t)
    out = S.kajiki.XMLTemplate('<r>' + src + '.</r>', **kw(mode))({}).render()
    S.eq(out, '<r>' + empty(t, w, {'mode': mode}) + '.</r>', 'empty element')


def tag_root(S, mode, form):
    t = S.choice('tag', list(VOID) + PLAIN + ['script', 'style'])
    src = '<%s/>' % t if form == 'self' else '<%s></%s>' % (t, t)
    out = S.kajiki.XMLTemplate(src, **kw(mode))({}).render()
    S.eq(out, empty(t, '', {'mode': mode}), 'empty root element')


FULL = {
    'text': lambda s, v: (s.translate({38: '&amp;', 60: '&lt;', 36: '$$'}), esc_text(s)),
    'expr': lambda s, v: ('${v}', esc(v)),
    'mixed': lambda s, v: ('a${v}b', 'a' + esc(v) + 'b'),
    'comment': lambda s, v: ('<!--c-->', '<!-- c -->'),
    'dropped': lambda s, v: ('<!--!c-->', ''),
    'if0': lambda s, v: ('<py:if test="0">x</py:if>', ''),
    'if1': lambda s, v: ('<py:if test="1">x</py:if>', 'x'),
    'def': lambda s, v: ('<py:def function="f()">x</py:def>', ''),
    'stripped': lambda s, v: ('<i py:strip="">x</i>', 'x'),
    'none': lambda s, v: ('${None}', ''),
    'space': lambda s, v: (' ', ' '),
    'replace': lambda s, v: ('<i py:replace="v"/>', esc(v)),
    'cdata': lambda s, v: ('<![CDATA[<]]>', '<![CDATA[<]]>'),
    'pair': lambda s, v: ('<b/><b>x</b>', None),
    'br': lambda s, v: ('<br/>x<hr/>', None),
}


def tag_full(S, mode, what, n):
    """An element with content keeps both its tags, also when the content renders to nothing."""
    t = S.choice('tag', PLAIN + list(VOID))
    v = S.str('v', (0, n), ANY)
    s = S.str('s', (1, n), XMLNOCR) if what == 'text' else ''
    src, w = FULL[what](s, v)
    if what == 'pair':
        w = empty('b', '', {'mode': mode}) + '<b>x</b>'
    if what == 'br':
        w = empty('br', '', {'mode': mode}) + 'x' + empty('hr', '', {'mode': mode})
    out = S.kajiki.XMLTemplate('<r><%s a="1">%s</%s></r>' % (t, src, t), **kw(mode))(dict(v=v)).render()
    end = '' if mode != 'xml' and t in VOID else '</' + t + '>'
    S.eq(out, '<r><' + t + ' a="1">' + w + end + '</r>', 'element with content')


def nested(S, mode):
    """Every pair of names inside each other."""
    a = S.choice('a', PLAIN)
    b = S.choice('b', list(VOID) + PLAIN)
    c = S.str('c', (0, 1), LOWER)
    src = '<%s><%s/>%s<%s>%s</%s></%s>' % (a, b, c, a, c, a, a)
    out = S.kajiki.XMLTemplate(src, **kw(mode))({}).render()
    cx = {'mode': mode}
    inner = empty(a, '', cx) if S.is_true(c == '') else '<%s>%s</%s>' % (a, c, a)
    S.eq(out, '<' + a + '>' + empty(b, '', cx) + c + inner + '</' + a + '>', 'nesting')


def content(S, mode, n):
    """py:content replaces whatever the element had."""
    t = S.choice('tag', PLAIN)
    v = S.str('v', (0, n), ANY)
    inner = S.choice('inner', ['', 'old', '<i>old</i>', '${1/0}', ' ', '<py:if test="1/0">x</py:if>', '<br/>'])
    src = '<r><%s py:content="v" b="1" z="2">%s</%s></r>' % (t, inner, t)
    out = S.kajiki.XMLTemplate(src, **kw(mode))(dict(v=v)).render()
    S.eq(out, '<r><' + t + ' b="1" z="2">' + esc(v) + '</' + t + '></r>', 'py:content')


def replaced(S, mode, n):
    """py:replace replaces the element altogether."""
    t = S.choice('tag', PLAIN + list(VOID) + ['script', 'style'])
    v = S.str('v', (0, n), ANY)
    form = S.choice('form', ['<%s py:replace="v"/>', '<%s py:replace="v">old</%s>', '<%s a="1" py:replace="v"><i/></%s>'])
    src = form % (t, t) if form.count('%s') == 2 else form % t
    out = S.kajiki.XMLTemplate('<r>[' + src + ']</r>', **kw(mode))(dict(v=v)).render()
    S.eq(out, '<r>[' + esc(v) + ']</r>', 'py:replace')


def raw(S, mode, tag, how, n):
    """script and style: the text is output as it is, not as markup."""
    s = S.str('s', (1, n), without(XMLNOCR, '$'))
    if how == 'entity':
        src = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    elif how == 'cdata':
        S.assume(']]>' not in s)
        src = '<![CDATA[' + s + ']]>'
    else:
        S.assume('<' not in s)
        S.assume('&' not in s)
        S.assume(']]>' not in s)
        src = s
    out = S.kajiki.XMLTemplate('<r><%s>%s</%s></r>' % (tag, src, tag), **kw(mode))({}).render()
    if mode == 'xml':
        w = '/*<![CDATA[*/' + s + '/*]]>*/'
    else:
        w = s
    S.eq(out, '<r><' + tag + '>' + w + '</' + tag + '></r>', 'raw text element')


def rawmix(S, mode, tag, n):
    """... while expressions inside them are evaluated and escaped."""
    v = S.str('v', (0, n), ANY)
    pre = S.choice('pre', ['', 'if (a &lt; b) ', 'x &amp;&amp; "y" ', '$$ '])
    post = S.choice('post', ['', ' > 1', ' &quot;', '$$'])
    src = '<r><%s>%s${v}%s</%s></r>' % (tag, pre, post, tag)
    out = S.kajiki.XMLTemplate(src, **kw(mode))(dict(v=v)).render()

    def un(x):
        return x.replace('&lt;', '<').replace('&quot;', '"').replace('&amp;', '&').replace('$$', '$')
    w = un(pre) + esc(v) + un(post)
    if mode == 'xml':
        w = '/*<![CDATA[*/' + w + '/*]]>*/'
    S.eq(out, '<r><' + tag + '>' + w + '</' + tag + '></r>', 'expressions in raw text elements')


def rawexpr(S, mode, tag):
    """... and their strings mean what they say: an entity written in an expression is resolved once."""
    v = S.str('v', (0, 1), ANY)
    lit, val = S.choice('lit', [('&amp;lt;', '&lt;'), ('&lt;', '<'), ('&amp;amp;lt;', '&amp;lt;'), ('&gt;', '>'), ('&amp;quot;', '&quot;'), ('$$', '$$')])
    pre = S.choice('pre', ['', '&amp;lt;'])
    cd = S.choice('cd', [False, True])
    src = pre + "${'%s' + v}" % lit
    if cd:
        src = '<![CDATA[' + src.replace('&lt;', '<').replace('&gt;', '>').replace('&amp;', '&') + ']]>'
    out = S.kajiki.XMLTemplate('<r><%s>%s</%s></r>' % (tag, src, tag), **kw(mode))(dict(v=v)).render()
    w = pre.replace('&amp;', '&') + esc(val + v)
    if mode == 'xml':
        w = '/*<![CDATA[*/' + w + '/*]]>*/'
    S.eq(out, '<r><' + tag + '>' + w + '</' + tag + '></r>', 'strings of expressions in raw text elements')


def nocdata(S, mode, tag, how, n):
    """cdata_scripts=False treats script and style like any other element."""
    s = S.str('s', (1, n), without(XMLNOCR, '$'))
    if how == 'entity':
        src, w = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;'), esc_text(s)
    else:
        S.assume(']]>' not in s)
        src = w = '<![CDATA[' + s + ']]>'
    out = S.kajiki.XMLTemplate('<r><%s>%s</%s></r>' % (tag, src, tag),
                               **kw(mode, cdata_scripts=False))({}).render()
    S.eq(out, '<r><' + tag + '>' + w + '</' + tag + '></r>', 'cdata_scripts=False')


def script_attrs(S, mode, tag):
    b = S.bool('b')
    v = S.str('v', (0, 2), ANY)
    out = S.kajiki.XMLTemplate('<r><py:if test="b"><%s src="$v"/></py:if><%s type="t">x</%s></r>' % (tag, tag, tag),
                               **kw(mode))(dict(b=b, v=v)).render()
    w = '/*<![CDATA[*/x/*]]>*/' if mode == 'xml' else 'x'
    first = empty(tag, ' src="' + esc(v) + '"', {'mode': mode}) if S.is_true(b) else ''
    S.eq(out, '<r>' + first + '<' + tag + ' type="t">' + w + '</' + tag + '></r>', 'script with attributes')


def strip(S, mode, shape):
    """py:strip removes exactly the start and end tag, by condition."""
    t = S.choice('tag', PLAIN + list(VOID)) if shape != 'raw' else S.choice('tag', ['script', 'style'])
    b = S.bool('b')
    v = S.str('v', (0, 1), ANY)
    cx = {'mode': mode}
    void = mode != 'xml' and t in VOID
    if shape != 'empty':
        S.assume(t not in VOID)
    src, tag, inner = {
        'empty': ('<%s py:strip="b"/>', empty(t, '', cx), ''),
        'text': ('<%s py:strip="b">x</' + t + '>', None, 'x'),
        'attr': ('<%s z="2" py:strip="b" a="1" c="$v">x</' + t + '>', None, 'x'),
        'attrs': ('<%s py:strip="b" py:attrs="{\'a\': 1, \'c\': v}">x</' + t + '>', None, 'x'),
        'content': ('<%s py:strip="b" py:content="v">x</' + t + '>', None, esc(v)),
        'child': ('<%s py:strip="b"><i>${v}</i></' + t + '>', None, '<i>' + esc(v) + '</i>'),
        'const': ('<%s py:strip="">x</' + t + '>', 'x', 'x'),
        'raw': ('<%s py:strip="b">x</' + t + '>', None, '/*<![CDATA[*/x/*]]>*/' if mode == 'xml' else 'x'),
    }[shape]
    if tag is None:
        a = ' a="1" c="' + esc(v) + '"' + (' z="2"' if shape == 'attr' else '') if shape in ('attr', 'attrs') else ''
        tag = '<' + t + a + '>' + inner + '</' + t + '>'
    out = S.kajiki.XMLTemplate('<r>[' + src % t + ']</r>', **kw(mode))(dict(b=b, v=v)).render()
    S.eq(out, '<r>[' + (inner if S.is_true(b) else tag) + ']</r>', 'py:strip')


def attr_order(S, mode):
    """Attributes come out once each, in order of their names."""
    names = S.choice('names', [['b', 'a'], ['a', 'b', 'c'], ['z', 'm', 'a'], ['a-b', 'a'], ['x:y', 'x'], ['id', 'ID']])
    v = S.str('v', (0, 2), ANY)
    t = S.choice('tag', ['p', 'br'])
    src = '<r><%s%s/></r>' % (t, ''.join([' %s="%d$v"' % (k, i) for i, k in enumerate(names)]))
    out = S.kajiki.XMLTemplate(src, **kw(mode))(dict(v=v)).render()
    vals = dict((k, i) for i, k in enumerate(names))
    a = ''
    for k in sorted(names):
        a = a + ' ' + k + '="' + str(vals[k]) + esc(v) + '"'
    S.eq(out, '<r>' + empty(t, a, {'mode': mode}) + '</r>', 'attributes')


def static_boolean(S, mode):
    """Boolean attributes written in the template are minimised in HTML and kept in XML."""
    k = S.choice('k', list(BOOLEAN))
    v = S.str('v', (0, 2), without(XMLNOCR, '$\n\t'))
    src = '<r><input %s="%s" x="y"/></r>' % (k, v.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;'))
    out = S.kajiki.XMLTemplate(src, **kw(mode))({}).render()
    if mode == 'xml':
        pair = ' ' + k + '="' + esc(v) + '"'
    else:
        pair = ' ' + k
    a = ''.join([p for n, p in sorted([(k, pair), ('x', ' x="y"')])])
    S.eq(out, '<r>' + empty('input', a, {'mode': mode}) + '</r>', 'boolean attribute')


def striptext(S, mode):
    """strip_text does not change which tags are written."""
    t = S.choice('tag', PLAIN)
    s = S.str('s', (1, 2), chars(' \n\ta'))
    out = S.kajiki.XMLTemplate('<r><%s>%s</%s><br/></r>' % (t, s, t), **kw(mode, strip_text=True))({}).render()
    S.eq(out, '<r><' + t + '>' + s.strip() + '</' + t + '>' + empty('br', '', {'mode': mode}) + '</r>', 'strip_text')


def plan(tier):
    big = tier != 'quick'
    n = 3 if big else 2
    P = []
    for m in MODES + ['default']:
        mm = m
        if m == 'default':
            P += [('tag_full', dict(mode='xml', what='text', n=n))]
            continue
        P += [('tag_empty', dict(mode=m, form=f, attrs=a)) for f in ('self', 'pair')
              for a in ('none', 'one', 'two', 'expr')]
        P += [('tag_root', dict(mode=m, form=f)) for f in ('self', 'pair')]
        P += [('tag_full', dict(mode=m, what=w, n=n)) for w in sorted(FULL)]
        P += [('nested', dict(mode=m)), ('content', dict(mode=m, n=n)), ('replaced', dict(mode=m, n=n))]
        P += [('raw', dict(mode=m, tag=t, how=h, n=4 if big else 3)) for t in ('script', 'style')
              for h in ('entity', 'cdata', 'plain')]
        P += [('nocdata', dict(mode=m, tag=t, how=h, n=4 if big else 3)) for t in ('script', 'style')
              for h in ('entity', 'cdata')]
        P += [('rawmix', dict(mode=m, tag=t, n=3)) for t in ('script', 'style')]
        P += [('rawexpr', dict(mode=m, tag=t)) for t in ('script', 'style')]
        P += [('script_attrs', dict(mode=m, tag=t)) for t in ('script', 'style')]
        P += [('strip', dict(mode=m, shape=s)) for s in ('empty', 'text', 'attr', 'attrs', 'content', 'child', 'const',
                                                        'raw')]
        P += [('attr_order', dict(mode=m)), ('static_boolean', dict(mode=m)), ('striptext', dict(mode=m))]
    P += [('elements', dict(n=40, mode=m)) for m in MODES]
    return P
