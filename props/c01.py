"""Values interpolated in element content are escaped."""
from symkj.api import ANY
from props.ref import esc, shown
from props.large import values
from props.makings import pick

BOUNDS = ('one or two symbolic text values of 0..8 (thorough 14) arbitrary Unicode code points, '
          'alone or next to fixed text of 120..70000 characters '
          '(no surrogates), symbolic integers in -30..120, booleans, None, objects of 46 makings (subclasses of the built-in types, unusual special methods) with symbolic texts; 4 interpolation forms, '
          '14 surrounding constructs, 3 output modes; template text fixed per scenario')
OUTSIDE = 'longer values other than the large sizes'
FORMS = {'braced': '<p>${v}</p>', 'named': '<p>$v</p>', 'content': '<p py:content="v"/>',
         'replace': '<p><b py:replace="v"/></p>', 'attrform': '<p py:content="v">old</p>',
         'replaceel': '<p><py:replace value="v">old</py:replace></p>'}

WRAPS = {
    'for': ('<p><py:for each="i in [1]">${v}</py:for></p>', '<p>%s</p>'),
    'foritem': ('<p><py:for each="i in [v]">$i</py:for></p>', '<p>%s</p>'),
    'if': ('<p><py:if test="True">${v}</py:if></p>', '<p>%s</p>'),
    'else': ('<p><py:if test="False">x</py:if><py:else>${v}</py:else></p>', '<p>%s</p>'),
    'case': ('<p><py:switch test="1"><py:case value="1">${v}</py:case></py:switch></p>',
             '<p>%s</p>'),
    'with': ('<p><py:with vars="x=v">$x</py:with></p>', '<p>%s</p>'),
    'def': ('<p><py:def function="f(a)">$a</py:def>${f(v)}</p>', '<p>%s</p>'),
    'innerdef': ('<p><py:def function="f(a)"><py:def function="g(b)">$b</py:def>${g(a)}</py:def>'
                 '${f(v)}</p>', '<p>%s</p>'),
    'call': ('<p><py:def function="f(caller)">${caller(v)}</py:def>'
             '<py:call args="z" function="f(%%caller)">$z</py:call></p>', '<p>%s</p>'),
    'block': ('<p><py:block name="k">${v}</py:block></p>', '<p>%s</p>'),
    'strip': ('<p><b py:strip="True">${v}</b></p>', '<p>%s</p>'),
    'stripped_content': ('<p><b py:strip="True" py:content="v"/></p>', '<p>%s</p>'),
    'pyvar': ('<p><?py w = v?>${w}</p>', '<p>%s</p>'),
    'cdata': ('<p><![CDATA[a${v}b]]></p>', '<p><![CDATA[a%sb]]></p>'),
    'textarea': ('<textarea>${v}</textarea>', '<textarea>%s</textarea>'),
    'script': ('<script>${v}</script>', '<script>/*<![CDATA[*/%s/*]]>*/</script>'),
    'between': ('<p>a${v}b</p>', '<p>a%sb</p>'),
    'concat': ('<p>${v + v}</p>', None),
}


def content(S, form, n, mode=None):
    v = S.str('v', (0, n), ANY)
    T = S.kajiki.XMLTemplate(FORMS[form], mode=mode, is_fragment=True)
    out = T(dict(v=v)).render()
    S.eq(out, '<p>' + esc(v) + '</p>', 'interpolated text must be escaped, exactly once')


def wrapped(S, wrap, n):
    v = S.str('v', (0, n), ANY)
    src, want = WRAPS[wrap]
    out = S.kajiki.XMLTemplate(src.replace('%%', '%'))(dict(v=v)).render()
    if wrap == 'concat':
        w = '<p>' + esc(v) + esc(v) + '</p>'
    else:
        a, b = want.split('%s')
        w = a + esc(v) + b
    S.eq(out, w, 'interpolated text must be escaped, exactly once')


def two(S, n):
    """Two values side by side keep their order and are escaped independently."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    out = S.kajiki.XMLTemplate('<p>${a}<b>$b</b>${a}${b}</p>')(dict(a=a, b=b)).render()
    S.eq(out, '<p>' + esc(a) + '<b>' + esc(b) + '</b>' + esc(a) + esc(b) + '</p>', 'two values')


class Shows(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def other(S, kind, form):
    """Values that are not strings are shown as str() shows them, then escaped."""
    if kind == 'int':
        v = S.int('v', -30, 120)
    elif kind == 'bool':
        v = S.bool('v')
    elif kind == 'none':
        v = None
    elif kind == 'obj':
        v = Shows(S.str('s', (0, 5), ANY))
    elif kind == 'zero':
        v = S.choice('v', [0, 0.0, '', [], {}, (), False])
    else:
        v = [S.str('s', (0, 1), ((38, 38), (60, 60), (62, 62), (34, 34), (97, 97)))]
    out = S.kajiki.XMLTemplate(FORMS[form])(dict(v=v)).render()
    S.eq(out, '<p>' + shown(v) + '</p>', 'non-string value')


class Num(int):
    def __str__(self):
        return '<%d&>' % int(self)


class Txt(str):
    def __str__(self):
        return '"' + str.__str__(self)


POOL = [1, True, 1.0, Num(1), 0, False, 0.0, '1', 'True', '', Num(0), Txt('a<'), 'a<', None]


def alike(S, form):
    """Values that compare equal but read differently, shown one after the other."""
    a = S.choice('a', POOL)
    b = S.choice('b', POOL)
    T = S.kajiki.XMLTemplate(FORMS[form])
    U = S.kajiki.XMLTemplate(FORMS['braced'].replace('p>', 'q>'))
    for t, tag in ((T, 'p'), (U, 'q'), (T, 'p')):
        for v in (a, b):
            S.eq(t(dict(v=v)).render(), '<' + tag + '>' + ('' if v is None else esc(str(v))) + '</' + tag + '>', 'equal values')


def makings(S, group, n):
    """Objects of many makings show their string form, escaped, alone and beside each other."""
    v, s, name = pick(S, n, ANY, group)
    form = S.choice('form', ['<p>$v</p>', '<p>a${v}<b py:content="v"/></p>', '<p><py:def function="f(x)">$x</py:def>${f(v)}</p>', '<p><py:for each="x in [v]">$x</py:for></p>'])
    out = S.kajiki.XMLTemplate(form)(dict(v=v)).render()
    S.eq(out, '<p>' + ('a' + esc(s) + '<b>' + esc(s) + '</b>' if 'py:content' in form else esc(s)) + '</p>', 'a value made as ' + name)


def longer(S, form, n, where):
    """Long values: what counts may be anywhere in them."""
    s = S.str('s', (0, 3), ANY)
    fill = ('x y\n' * n)[:n]
    v = {'end': fill + s, 'start': s + fill, 'mid': fill + s + fill, 'both': s + fill + s}[where]
    out = S.kajiki.XMLTemplate(FORMS[form])(dict(v=v)).render()
    S.eq(out, '<p>' + esc(v) + '</p>', 'long value')


def across(S, where, n):
    """Escaping is the same in included, imported and inherited templates."""
    X = S.kajiki.XMLTemplate
    v = S.str('v', (0, n), ANY)
    if where == 'include':
        L = S.kajiki.MockLoader({'a': X('<p><py:include href="b"/></p>'), 'b': X('<i>$v</i>')})
        want = '<p><i>' + esc(v) + '</i></p>'
    elif where == 'import':
        L = S.kajiki.MockLoader({
            'a': X('<p><py:import href="b" alias="m"/>${m.f(v)}</p>'),
            'b': X('<py:def function="f(x)"><i>$x</i></py:def>')})
        want = '<p><i>' + esc(v) + '</i></p>'
    elif where == 'parent_block':
        L = S.kajiki.MockLoader({
            'a': X('<py:extends href="b"><py:block name="k">${parent_block()}|$v</py:block>'
                   '</py:extends>'),
            'b': X('<p><py:block name="k"><i>$v</i></py:block></p>')})
        want = '<p><i>' + esc(v) + '</i>|' + esc(v) + '</p>'
    else:
        L = S.kajiki.MockLoader({
            'a': X('<py:extends href="b"><py:def function="f()">$v</py:def></py:extends>'),
            'b': X('<p><py:def function="f()">x</py:def>${f()}</p>')})
        want = '<p>' + esc(v) + '</p>'
    S.eq(L.import_('a')(dict(v=v)).render(), want, 'escaping across templates')


def plan(tier):
    n = 8 if tier == 'quick' else 14
    P = [('content', dict(form=f, n=n)) for f in sorted(FORMS)]
    P += [('content', dict(form='braced', n=n, mode=m)) for m in ('xml', 'html', 'html5')]
    P += [('wrapped', dict(wrap=w, n=n - 3)) for w in sorted(WRAPS)]
    P += [('two', dict(n=3 if tier == 'quick' else 5))]
    P += [('other', dict(kind=k, form=f)) for k in ('int', 'bool', 'none', 'obj', 'zero', 'list')
          for f in ('braced', 'content', 'replace', 'named')]
    P += [('alike', dict(form=f)) for f in ('braced', 'content')]
    P += [('longer', dict(form='braced', n=m, where=w)) for m in (120, 1030, 70000) for w in ('end', 'mid', 'both')]
    P += [('longer', dict(form='content', n=m, where='end')) for m in (300, 4100)]
    P += [('across', dict(where=w, n=n - 4)) for w in ('include', 'import', 'parent_block', 'def')]
    P += [('makings', dict(group=g, n=2 if tier == 'quick' else 4)) for g in range(8)]
    P += [('values', dict(n=60))]
    return P
