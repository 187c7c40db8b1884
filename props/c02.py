"""Attribute values: escaped once, None omitted, XML value semantics."""
import itertools

from symkj.api import ANY, XML, IDENT, LOWER, chars, without
from props.ref import esc, attr, BOOLEAN, VOID
from props.makings import pick
from props.large import attributes, attrparts

BOUNDS = ('one or two symbolic values of 0..7 (thorough 12) arbitrary code points (also next to '
          '120..70000 fixed ones), each also None, '
          'an integer -30..120, a boolean, or an object of one of 46 makings; symbolic static attribute text of 0..3 (thorough 4) '
          'XML characters; all orders of three of five attribute names; 3 modes; '
          'guarded by py:strip; inside loops and functions')
OUTSIDE = ('longer values; template functions or markup objects inside attribute values; '
           'namespaced attribute names')

FORMS = {
    'braced': ('${v}', '%s'), 'named': ('$v', '%s'), 'between': ('x${v}y', 'x%sy'),
    'prefix': ('x $v', 'x %s'), 'suffix': ('${v}$$', '%s$'), 'dot': ('$v.', None),
    'dollar': ('$$$v', '$%s'), 'ent': ('&lt;${v}&quot;', '&lt;%s&quot;'),
    'amp': ('a&amp;b=$v', 'a&amp;b=%s'),
    'expr': ("${v or ''}", '%s'), 'dict': ("${{'k': v}['k']}", '%s'),
    'lt': ("${v if 1 &lt; 2 else ''}", '%s'), 'lone': ('$ ${v} $', '$ %s $'),
}


def val(S, form, n, mode=None, kids=''):
    v = S.str('v', (0, n), ANY)
    pat, want = FORMS[form]
    out = S.kajiki.XMLTemplate('<p a="%s">z</p>' % pat, mode=mode, is_fragment=True)(
        dict(v=v)).render()
    a, b = want.split('%s')
    S.eq(out, '<p a="' + a + esc(v) + b + '">z</p>', 'attribute value')


def ref_parts(parts):
    """None when there is nothing to show, else the raw value."""
    got = [p for p in parts if p is not None]
    if not got:
        return None
    return ''.join([str(p) for p in got])


def some(S, name, n):
    k = S.choice(name + '?', ['none', 'str', 'int', 'bool'])
    if k == 'none':
        return None
    if k == 'int':
        return S.int(name, -3, 12)
    if k == 'bool':
        return S.bool(name)
    return S.str(name, (0, n), ANY)


def longer(S, n, where, mode):
    """Long values: what counts may be anywhere in them."""
    s = S.str('s', (0, 3), ANY)
    fill = ('x y\n' * n)[:n]
    v = {'end': fill + s, 'mid': fill + s + fill}[where]
    out = S.kajiki.XMLTemplate('<p a="$v" b="-${v}">z</p>', mode=mode, is_fragment=True)(dict(v=v)).render()
    S.eq(out, '<p a="' + esc(v) + '" b="-' + esc(v) + '">z</p>', 'long value')


class Shows(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False
    __hash__ = None


def other(S, pat):
    """Values of any kind are there unless they are None."""
    s = S.str('s', (0, 1), ANY)
    v = S.choice('v', [(), [], {}, 0, 0.0, '', False, True, -1, 1.5, (1,), frozenset(), b'', range(0), Shows, ['x'], 10 ** 30, 1e300])
    if v is Shows:
        v = Shows(s)
    src, f = {'${v}': ('', ''), 'x${v}': ('x', ''), '$v-${w}': ('', '-')}[pat], pat
    out = S.kajiki.XMLTemplate('<p a="' + pat + '" b="2"/>')(dict(v=v, w=None)).render()
    S.eq(out, '<p a="' + src[0] + esc(str(v)) + src[1] + '" b="2"/>', 'a value that is not None')


def makings(S, group, n):
    """Values of many makings show their string form, escaped."""
    v, s, name = pick(S, n, ANY, group)
    pat = S.choice('pat', ['$v', 'x${v}', '${v}${w}', '$v-$v'])
    out = S.kajiki.XMLTemplate('<p a="' + pat + '" b="2"/>')(dict(v=v, w=None)).render()
    S.eq(out, '<p a="' + {'x${v}': 'x' + esc(s), '$v-$v': esc(s) + '-' + esc(s)}.get(pat, esc(s)) + '" b="2"/>', 'a value made as ' + name)


PATS = {'ab': ('${a}${b}', lambda a, b: [a, b]), 'a-b': ('${a}-${b}', lambda a, b: [a, '-', b]),
        'a': ('${a}', lambda a, b: [a]), 'xa': ('x${a}', lambda a, b: ['x', a]),
        'a sp': ('$a ', lambda a, b: [a, ' ']), '': ('', lambda a, b: ['']),
        'aab': ('$a$a$b', lambda a, b: [a, a, b])}


def nones(S, pat, n, mode='xml', strip=False):
    """The attribute is left out exactly when every part is None."""
    src, f = PATS[pat]
    a = some(S, 'a', n)
    b = some(S, 'b', n) if 'b' in pat else None
    tag = '<p c="1" k="%s" z="2"%s>t</p>' % (src, ' py:strip="s"' if strip else '')
    ctx = dict(a=a, b=b)
    if strip:
        ctx['s'] = S.bool('s')
    out = S.kajiki.XMLTemplate('<r>' + tag + '</r>', mode=mode, is_fragment=True)(ctx).render()
    r = ref_parts(f(a, b))
    want = '<p c="1"' + ('' if r is None else ' k="' + esc(r) + '"') + ' z="2">t</p>'
    if strip and S.is_true(ctx['s']):
        want = 't'
    S.eq(out, '<r>' + want + '</r>', 'attribute left out iff all parts are None')


def static(S, n, quote, mode):
    """Static attribute text keeps its XML value."""
    s = S.str('s', (0, n), without(XML, "'"))
    w = attr(s) if quote == '"' else attr(s).replace('&quot;', '"')
    out = S.kajiki.XMLTemplate('<p a=' + quote + w + quote + '/>', mode=mode,
                               is_fragment=True)().render()
    v = s.replace('\r\n', ' ').replace('\r', ' ').replace('\n', ' ').replace('\t', ' ')
    S.eq(out, '<p a="' + esc(v) + '"' + ('/>' if mode == 'xml' else '></p>'), 'static value')


ENT = {'&amp;': '&amp;', '&lt;': '&lt;', '&gt;': '&gt;', '&quot;': '&quot;', '&apos;': "'",
       '&#38;': '&amp;', '&#x3C;': '&lt;', '&#65;': 'A', '&#x20AC;': u'\u20ac', '&#10;': '\n',
       '&#36;': None, '&amp;lt;': '&amp;lt;', '&amp;amp;': '&amp;amp;', '&#34;': '&quot;'}


def entity(S, n):
    e = S.choice('e', sorted(k for k in ENT if ENT[k] is not None))
    s = S.str('s', (0, n), without(XML, '\'"<&$\r\n\t'))
    out = S.kajiki.XMLTemplate('<p a="' + s + e + s + '"/>')().render()
    S.eq(out, '<p a="' + esc(s) + ENT[e] + esc(s) + '"/>', 'character references')


def htmlentity(S, name):
    """The named entities of HTML are understood in attributes too."""
    import html.entities
    out = S.kajiki.XMLTemplate('<p a="x&' + name + ';y"/>')().render()
    S.eq(out, '<p a="x' + esc(html.entities.html5[name + ';']) + 'y"/>', 'named entity')


def order(S, mode):
    """Attributes come out in name order, each with its own value."""
    names = list(S.choice('names', list(itertools.permutations(['a', 'ab', 'B', 'b_', 'b-1'], 3))))
    v = S.str('v', (0, 2), ANY)
    src = '<p ' + names[0] + '="1" ' + names[1] + '="$v" ' + names[2] + '="${w}"/>'
    out = S.kajiki.XMLTemplate(src, mode=mode, is_fragment=True)(dict(v=v, w=None)).render()
    pairs = sorted([(names[0], '1'), (names[1], v)])
    want = '<p'
    for k, x in pairs:
        want = want + ' ' + k + '="' + esc(x) + '"'
    S.eq(out, want + ('/>' if mode == 'xml' else '></p>'), 'order')


CTX = {
    'for': ('<r><p py:for="x in [v, v]" a="$x"/></r>', '<p a="%s"/>', 2),
    'def': ('<r><py:def function="f(x)"><p a="$x"/></py:def>${f(v)}</r>', '<p a="%s"/>', 1),
    'if': ('<r><p py:if="True" a="$v"/></r>', '<p a="%s"/>', 1),
    'with': ('<r><p py:with="x=v" a="$x"/></r>', '<p a="%s"/>', 1),
    'content': ('<r><p a="$v" py:content="1"/></r>', '<p a="%s">1</p>', 1),
    'block': ('<r><p py:block="k" a="$v"/></r>', '<p a="%s"/>', 1),
    'nested': ('<r a="$v"><q><p a="$v"/></q></r>', None, 1),
    'call': ('<r><py:def function="f(caller)">${caller(v)}</py:def>'
             '<py:call args="z" function="f(%caller)"><p a="$z"/></py:call></r>', '<p a="%s"/>', 1),
    'py': ('<r><?py w = v?><p a="$w"/></r>', '<p a="%s"/>', 1),
    'br': ('<r><br a="$v"/></r>', '<br a="%s"/>', 1),
    'script': ('<r><script src="$v"/></r>', '<script src="%s"></script>', 1),
    'many': ('<r><p a="$v" b="$v" c="$v" d="$v"/></r>', None, 1),
    'attrs': ('<r><p a="$v" py:attrs="{\'b\': v}"/></r>', None, 1),
}


def context(S, where, n):
    v = S.str('v', (0, n), ANY)
    src, want, times = CTX[where]
    out = S.kajiki.XMLTemplate(src)(dict(v=v)).render()
    e = esc(v)
    if where == 'nested':
        w = '<r a="' + e + '"><q><p a="' + e + '"/></q></r>'
    elif where == 'many':
        w = '<r><p a="' + e + '" b="' + e + '" c="' + e + '" d="' + e + '"/></r>'
    elif where == 'attrs':
        w = '<r><p a="' + e + '" b="' + e + '"/></r>'
    else:
        a, b = want.split('%s')
        w = '<r>' + (a + e + b) * times + '</r>'
    S.eq(out, w, 'attribute in context')


def across(S, where, n):
    X = S.kajiki.XMLTemplate
    v = S.str('v', (0, n), ANY)
    if where == 'include':
        L = S.kajiki.MockLoader({'a': X('<p><py:include href="b"/></p>'), 'b': X('<i a="$v"/>')})
    elif where == 'import':
        L = S.kajiki.MockLoader({
            'a': X('<p><py:import href="b" alias="m"/>${m.f(v)}</p>'),
            'b': X('<py:def function="f(x)"><i a="$x"/></py:def>')})
    else:
        L = S.kajiki.MockLoader({
            'a': X('<py:extends href="b"><py:block name="k"><i a="$v"/></py:block></py:extends>'),
            'b': X('<p><py:block name="k">old</py:block></p>')})
    S.eq(L.import_('a')(dict(v=v)).render(), '<p><i a="' + esc(v) + '"/></p>', 'across templates')


def boolean(S, mode, n):
    """Static boolean attributes: bare in HTML output, name="value" in XML output."""
    k = S.choice('k', BOOLEAN)
    v = S.str('v', (0, n), ANY)
    none = S.bool('none')
    ctx = dict(v=None if S.is_true(none) else v)
    out = S.kajiki.XMLTemplate('<p a="1" %s="$v" z="2"/>' % k, mode=mode, is_fragment=True)(
        ctx).render()
    if ctx['v'] is None:
        w = ''
    elif mode == 'xml':
        w = ' ' + k + '="' + esc(v) + '"'
    else:
        w = ' ' + k
    S.eq(out, '<p a="1"' + w + ' z="2"' + ('/>' if mode == 'xml' else '></p>'), 'boolean attribute')


def plan(tier):
    big = tier != 'quick'
    n = 12 if big else 7
    P = [('val', dict(form=f, n=n - 1)) for f in sorted(FORMS) if FORMS[f][1]]
    P += [('val', dict(form='between', n=n - 2, mode=m)) for m in ('xml', 'html', 'html5')]
    P += [('longer', dict(n=m, where=w, mode='xml')) for m in (120, 1030, 70000) for w in ('end', 'mid')]
    P += [('other', dict(pat=p)) for p in ('${v}', 'x${v}', '$v-${w}')]
    P += [('makings', dict(group=g, n=3 if big else 1)) for g in range(8)]
    P += [('nones', dict(pat=p, n=2, mode=m)) for p in sorted(PATS) for m in ('xml', 'html5')]
    P += [('nones', dict(pat=p, n=2, strip=True)) for p in ('a', 'a-b', '')]
    P += [('static', dict(n=4 if big else 3, quote=q, mode=m)) for q in '"\'' for m in ('xml', 'html')]
    P += [('entity', dict(n=3))]
    P += [('htmlentity', dict(name=n)) for n in ('nbsp', 'eacute', 'copy', 'hellip')]
    P += [('order', dict(mode=m)) for m in ('xml', 'html')]
    P += [('context', dict(where=w, n=n - 2)) for w in sorted(CTX)]
    P += [('across', dict(where=w, n=n - 3)) for w in ('include', 'import', 'extends')]
    P += [('boolean', dict(mode=m, n=2)) for m in ('xml', 'html', 'html5')]
    P += [('attributes', dict(n=40, mode=m)) for m in ('xml', 'html')] + [('attrparts', dict(n=60))]
    return P
