"""Trusted markup is emitted verbatim, exactly once escaped inside."""
from symkj.api import ANY, XML
from props.ref import esc
from props.large import markup

BOUNDS = ('symbolic markup text and symbolic plain text of 0..5 (thorough 8) arbitrary code points; '
          '5 ways of marking text as trusted, objects with an HTML form of 17 makings, 9 places to show it, up to 3 nested template functions; '
          'used once or twice; default and overridden text in 3 modes')
OUTSIDE = 'markup objects inside attribute values written as ${...}; longer text'


class Html(object):
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return 'wrong: __html__ must be used'


class HtmlStr(object):
    """Both a __html__ and its own text."""
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return '<b>' + self.s + '</b>'

    def __str__(self):
        return self.s


def htmls(v):
    """Objects with an HTML form, of every making."""
    class Static(object):
        @staticmethod
        def __html__():
            return v

    class Class(object):
        @classmethod
        def __html__(cls):
            return v

    class Heir(Static):
        pass

    class Callable(object):
        def __call__(self):
            return v

    class Other(object):
        __html__ = Callable()

    class Get(object):
        def __getattr__(self, name):
            if name == '__html__':
                return lambda: v
            raise AttributeError(name)

    class Prop(object):
        @property
        def __html__(self):
            return lambda: v

    class Empty(object):
        def __html__(self):
            return v

        def __len__(self):
            return 0

    def sub(base, *a):
        class Sub(base):
            def __html__(self):
                return v
        return Sub(*a)

    class Equal(object):
        def __html__(self):
            return v

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 0

    inst = Heir()
    own = type('Own', (object,), {})()
    own.__html__ = lambda: v
    inst.x = 1
    return dict(static=Static(), cls=Class(), heir=inst, other=Other(), get=Get(), prop=Prop(), empty=Empty(), own=own, str=sub(str, 'no'), int=sub(int, 3), list=sub(list, [1]),
                dict=sub(dict), tuple=sub(tuple, (1, 2)), exc=sub(ValueError, 'no'), float=sub(float, 1.5), klass=Static, equal=Equal())


KINDS = ['static', 'cls', 'heir', 'other', 'get', 'prop', 'empty', 'own', 'str', 'int', 'list', 'dict', 'tuple', 'exc', 'float', 'klass', 'equal']


def kinds(S, kind, n):
    v = S.str('v', (0, n), ANY)
    out = S.kajiki.XMLTemplate('<p>${o}<b py:content="o"/><py:for each="x in [o]">$x$v</py:for></p>')(dict(o=htmls(v)[kind], v=v)).render()
    S.eq(out, '<p>' + v + '<b>' + v + '</b>' + v + esc(v) + '</p>', 'objects with an HTML form')


def nontext(S, where):
    """Markup made of other things than text shows their text."""
    k = S.choice('k', ['int', 'bool', 'float', 'empty', 'list', 'tuple'])
    v = {'int': lambda: S.int('v', -3, 12), 'bool': lambda: S.bool('v'), 'float': lambda: 0.0, 'empty': lambda: '', 'list': lambda: [],
         'tuple': lambda: ()}[k]()
    src, want = {'content': ('<p>${Markup(v)}<b py:content="literal(v)"/></p>', '<p>%s<b>%s</b></p>'),
                 'attr': ('<p y="${Markup(v)}" z="a${literal(v)}b"/>', '<p y="%s" z="a%sb"/>'),
                 'attrs': ('<p py:attrs="{\'y\': Markup(v), \'z\': literal(v)}"/>', '<p y="%s" z="%s"/>'),
                 'def': ('<p><py:def function="f()">${Markup(v)}</py:def><b y="${f()}">${f()}</b></p>', '<p><b y="%s">%s</b></p>')}[where]
    t = str(v)
    S.eq(S.kajiki.XMLTemplate(src)(dict(v=v)).render(), want % (t, t), 'markup of ' + k)


PLACES = {
    'braced': '<p>${%s}</p>', 'content': '<p py:content="%s"/>',
    'replace': '<p><b py:replace="%s"/></p>', 'replaceel': '<p><py:replace value="%s"/></p>',
    'for': '<p><py:for each="x in [%s]">$x</py:for></p>',
    'with': '<p><py:with vars="x=%s">$x</py:with></p>',
    'if': '<p><py:if test="True">${%s}</py:if></p>',
    'def': '<p><py:def function="g(y)">$y</py:def>${g(%s)}</p>',
    'strip': '<p><b py:strip="">${%s}</b></p>',
}


def marked(S, how, where, n, mode=None):
    v = S.str('v', (0, n), ANY)
    ctx = dict(v=v)
    if how == 'html':
        expr = 'o'
        ctx['o'] = Html(v)
    elif how == 'htmlstr':
        expr = 'o'
        ctx['o'] = HtmlStr(v)
    elif how == 'Markup':
        expr = 'Markup(v)'
    elif how == 'literal':
        expr = 'literal(v)'
    else:
        from kajiki.util import literal
        expr = 'o'
        ctx['o'] = literal(v)
    out = S.kajiki.XMLTemplate(PLACES[where] % expr, mode=mode, is_fragment=True)(ctx).render()
    if how == 'htmlstr':
        S.eq(out, '<p><b>' + v + '</b></p>', 'trusted markup')
    else:
        S.eq(out, '<p>' + v + '</p>', 'trusted markup must come out verbatim')


def mixed(S, n):
    """Trust is a property of the value, not of the text."""
    v = S.str('v', (0, n), ANY)
    out = S.kajiki.XMLTemplate('<p>$v${Markup(v)}$v${literal(v)}${v}</p>')(dict(v=v)).render()
    S.eq(out, '<p>' + esc(v) + v + esc(v) + v + esc(v) + '</p>', 'mixed trusted and plain')


def twice(S, how, n):
    """A trusted value can be shown more than once."""
    v = S.str('v', (0, n), ANY)
    if how == 'html':
        src = '<p>$o|$o</p>'
        ctx = dict(o=Html(v))
    elif how == 'Markup':
        src = '<p><py:with vars="o=Markup(v)">$o|$o</py:with></p>'
        ctx = dict(v=v)
    else:
        src = '<p py:with="o=literal(v)"><py:for each="i in (1, 2)">$o<py:if test="i == 1">|</py:if></py:for></p>'
        ctx = dict(v=v)
    out = S.kajiki.XMLTemplate(src)(ctx).render()
    S.eq(out, '<p>' + v + '|' + v + '</p>', 'shown twice')


FUNCS = {
    'def': ('<py:def function="f(x)"><i>$x</i></py:def>${f(v)}', ('<i>', '</i>')),
    'deftag': ('<i py:def="f(x)">$x</i>${f(v)}', ('<i>', '</i>')),
    'nest2': ('<py:def function="f(x)"><i>$x</i></py:def><py:def function="g(x)"><b>${f(x)}</b></py:def>'
              '${g(v)}', ('<b><i>', '</i></b>')),
    'nest3': ('<py:def function="f(x)"><i>$x</i></py:def><py:def function="g(x)"><b>${f(x)}</b></py:def>'
              '<py:def function="h(x)"><u>${g(x)}</u></py:def>${h(v)}', ('<u><b><i>', '</i></b></u>')),
    'inner': ('<py:def function="g(x)"><py:def function="f(y)"><i>$y</i></py:def><b>${f(x)}</b></py:def>'
              '${g(v)}', ('<b><i>', '</i></b>')),
    'arg': ('<py:def function="f(x)"><i>$x</i></py:def><py:def function="g(z)"><b>$z</b></py:def>'
            '${g(f(v))}', ('<b><i>', '</i></b>')),
    'content': ('<py:def function="f(x)"><i>$x</i></py:def><b py:content="f(v)"/>',
                ('<b><i>', '</i></b>')),
    'replace': ('<py:def function="f(x)"><i>$x</i></py:def><b py:replace="f(v)"/>', ('<i>', '</i>')),
    'var': ('<py:def function="f(x)"><i>$x</i></py:def><?py w = f(v)?>$w', ('<i>', '</i>')),
    'with': ('<py:def function="f(x)"><i>$x</i></py:def><py:with vars="w=f(v)">$w</py:with>',
             ('<i>', '</i>')),
    'for': ('<py:def function="f(x)"><i>$x</i></py:def><py:for each="w in [f(v)]">$w</py:for>',
            ('<i>', '</i>')),
    'call': ('<py:def function="f(caller)"><i>${caller(v)}</i></py:def>'
             '<py:call args="z" function="f(%caller)"><b>$z</b></py:call>', ('<i><b>', '</b></i>')),
    'callnoarg': ('<py:def function="f(caller)"><i>${caller()}</i></py:def>'
                  '<py:call function="f(%caller)"><b>$v</b></py:call>', ('<i><b>', '</b></i>')),
    'block': ('<py:block name="k"><i>$v</i></py:block>', ('<i>', '</i>')),
    'blocktag': ('<i py:block="k">$v</i>', ('<i>', '</i>')),
    'rec': ('<py:def function="f(x, d)"><i><py:if test="d">${f(x, d - 1)}</py:if>'
            '<py:else>$x</py:else></i></py:def>${f(v, 2)}', ('<i><i><i>', '</i></i></i>')),
    'attr': ('<py:def function="f(x)"><i a="$x">&lt;$x</i></py:def>${f(v)}', None),
    'callable': ('<py:def function="f(x)"><i>$x</i></py:def><py:def function="g(h)">${h(v)}</py:def>'
                 '${g(f)}', ('<i>', '</i>')),
}


def func(S, shape, n, mode=None):
    """What a template function produces is markup; plain values in it are escaped once."""
    v = S.str('v', (0, n), ANY)
    src, want = FUNCS[shape]
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>', mode=mode, is_fragment=True)(dict(v=v)).render()
    if shape == 'attr':
        w = '<i a="' + esc(v) + '">&lt;' + esc(v) + '</i>'
    else:
        w = want[0] + esc(v) + want[1]
    S.eq(out, '<p>' + w + '</p>', 'template function result')


def across(S, where, n):
    X = S.kajiki.XMLTemplate
    v = S.str('v', (0, n), ANY)
    e = esc(v)
    if where == 'include':
        m = {'a': X('<p><py:include href="b"/></p>'), 'b': X('<i>&lt;$v${Markup(v)}</i>')}
        w = '<i>&lt;' + e + v + '</i>'
    elif where == 'import':
        m = {'a': X('<p><py:import href="b" alias="m"/>${m.f(v)}<b py:content="m.f(Markup(v))"/></p>'),
             'b': X('<py:def function="f(x)"><i>$x</i></py:def>')}
        w = '<i>' + e + '</i><b><i>' + v + '</i></b>'
    elif where == 'parent_block':
        m = {'a': X('<py:extends href="b"><py:block name="k">${parent_block()}|${Markup(v)}</py:block>'
                    '</py:extends>'),
             'b': X('<p><py:block name="k"><i>&lt;$v</i></py:block></p>')}
        w = '<i>&lt;' + e + '</i>|' + v
    elif where == 'grand':
        m = {'a': X('<py:extends href="b"><py:block name="k">a${parent_block()}</py:block></py:extends>'),
             'b': X('<py:extends href="c"><py:block name="k">b${parent_block()}</py:block></py:extends>'),
             'c': X('<p><py:block name="k"><i>$v</i></py:block></p>')}
        w = 'ab<i>' + e + '</i>'
    else:
        m = {'a': X('<py:extends href="b"><py:def function="f()"><u>${parent.f()}$v</u></py:def>'
                    '</py:extends>'),
             'b': X('<p><py:def function="f()"><i>$v</i></py:def>${f()}</p>')}
        w = '<u><i>' + e + '</i>' + e + '</u>'
    out = S.kajiki.MockLoader(m).import_('a')(dict(v=v)).render()
    S.eq(out, '<p>' + w + '</p>', 'markup across templates')


def textauto(S, n):
    """The same holds in text templates with automatic escaping."""
    v = S.str('v', (0, n), ANY)
    src = '{%def f(x)%}<$x>{%end%}$v|${Markup(v)}|${f(v)}'
    out = S.kajiki.TextTemplate(src, autoescape=True)(dict(v=v)).render()
    S.eq(out, esc(v) + '|' + v + '|<' + esc(v) + '>', 'text template')


def attrs(S, how, n):
    """Trusted values given to py:attrs are shown verbatim."""
    v = S.str('v', (0, n), ANY)
    ctx = dict(v=v)
    expr = 'Markup(v)' if how == 'Markup' else 'o'
    ctx['o'] = Html(v)
    out = S.kajiki.XMLTemplate('<p py:attrs="{\'a\': %s}"/>' % expr)(ctx).render()
    S.eq(out, '<p a="' + v + '"/>', 'trusted attribute value')


def plan(tier):
    return plan_(tier) + [('nontext', dict(where=w)) for w in ('content', 'attr', 'attrs', 'def')]


def plan_(tier):
    n = 5 if tier == 'quick' else 8
    P = [('marked', dict(how=h, where=w, n=n)) for h in ('Markup', 'html', 'htmlstr') for w in sorted(PLACES)]
    P += [('marked', dict(how=h, where='braced', n=n, mode=m)) for h in ('literal', 'given', 'Markup')
          for m in ('xml', 'html', 'html5')]
    P += [('kinds', dict(kind=k, n=2)) for k in KINDS]
    P += [('mixed', dict(n=n - 1)), ('textauto', dict(n=n - 1))]
    P += [('twice', dict(how=h, n=n - 1)) for h in ('html', 'Markup', 'literal')]
    P += [('func', dict(shape=s, n=n - 1)) for s in sorted(FUNCS)]
    P += [('func', dict(shape='nest2', n=n - 1, mode=m)) for m in ('html', 'html5')]
    P += [('across', dict(where=w, n=n - 2)) for w in ('include', 'import', 'parent_block', 'grand', 'parent')]
    P += [('attrs', dict(how=h, n=n - 2)) for h in ('Markup', 'html')]
    P += [('markup', dict(n=2000, how='long')), ('markup', dict(n=25, how='functions'))]
    return P
