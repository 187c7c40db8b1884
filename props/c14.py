"""Renders do not influence each other."""
from symkj.api import ANY, chars
from props.ref import esc
from props.large import many

BOUNDS = ('21 templates covering every construct, including parents, includes and imports; sequences of 3 renders with two contexts of '
          'symbolic values; two renders streamed alternately with every pair of switch points; renders abandoned after every number of '
          'pieces; an exception raised by the n-th evaluation of an expression, for every n; contexts compared before and after; '
          'templates compiled in between; renders started by the k-th expression of a render in progress, completed, abandoned or failed, k to 5 (thorough 6)')
OUTSIDE = ('two iterators over one and the same instance consumed alternately; threads that switch inside the evaluation of one piece; values '
           'that change while being rendered; Python blocks that themselves keep state')

NEST = '<py:def function="f(x)">(<py:switch test="x"><py:case value="v">$x</py:case><py:else>e$x</py:else></py:switch>)</py:def>'
BODIES = {
    'text': ('<p>t</p>', lambda v, w, s: '<p>t</p>'),
    'expr': ('<p>$v-$w</p>', lambda v, w, s: '<p>' + v + '-' + w + '</p>'),
    'attr': ('<p a="$v" b="x$w" c="$none"/>', lambda v, w, s: '<p a="' + v + '" b="x' + w + '"/>'),
    'attrs': ('<p py:attrs="dict(a=v, b=none, c=w)"/>', lambda v, w, s: '<p a="' + v + '" c="' + w + '"/>'),
    'for': ('<p><i py:for="x in s">$x$v</i></p>', lambda v, w, s: '<p>' + ''.join('<i>' + x + v + '</i>' for x in s) + '</p>'),
    'if': ('<p><py:if test="b">$v</py:if><py:else>$w</py:else></p>', None),
    'switch': ('<p><py:switch test="w"><py:case value="v">=$v</py:case><py:else>$v$w</py:else></py:switch>$v</p>', None),
    'switch2': ('<p>' + NEST + '<py:switch test="v"><py:case value="w">no${f(w)}</py:case><py:case value="v">${f(v)}$w</py:case></py:switch></p>', None),
    'with': ('<p><py:with vars="x=v; y=w">$x$y<py:with vars="x=w; y=v">$x$y</py:with>$x$y</py:with></p>',
             lambda v, w, s: '<p>' + v + w + w + v + v + w + '</p>'),
    'withfn': ('<p><py:def function="f(n)"><py:with vars="n=n + 1">$n<py:if test="n != 3">${f(n)}</py:if>$n</py:with></py:def>$v${f(0)}</p>',
               lambda v, w, s: '<p>' + v + '123321</p>'),
    'def': ('<p><py:def function="f(x)">[$x]</py:def>${f(v)}${f(w)}</p>', lambda v, w, s: '<p>[' + v + '][' + w + ']</p>'),
    'call': ('<p><py:def function="f(c)">${c(v)}${c(w)}</py:def><py:call args="x" function="f(%caller)">[$x]</py:call></p>',
             lambda v, w, s: '<p>[' + v + '][' + w + ']</p>'),
    'block': ('<p><py:block name="k">$v</py:block>$w</p>', lambda v, w, s: '<p>' + v + w + '</p>'),
    'strip': ('<p><i py:strip="b">$v</i>$w</p>', None),
    'literal': ('<p>${literal(v)}${Markup(w)}</p>', 'raw'),
    'python': ('<p><?py z = "%s%s" % (v, w)?>$z<?py z = 1?>$z</p>', lambda v, w, s: '<p>' + v + w + '1</p>'),
    'module': ('<p><?py %import os.path\nK = 3?>$v$K${os.path.basename("a/b")}</p>', lambda v, w, s: '<p>' + v + '3b</p>'),
    'script': ('<p><script>x $v &lt;</script>$w</p>', lambda v, w, s: '<p><script>/*<![CDATA[*/x ' + v + ' </*]]>*/</script>' + w + '</p>'),
    'extends': ('<py:extends href="base"><py:block name="k">$v${parent_block()}$w</py:block></py:extends>',
                lambda v, w, s: '<r>' + v + '(' + v + ')' + w + '-' + w + '</r>'),
    'include': ('<p>$v<py:include href="part"/>$w</p>', lambda v, w, s: '<p>' + v + '<i>' + v + 'p</i>' + w + '</p>'),
    'import': ('<p><py:import href="part" alias="l"/>${l.g(v)}${l.g(w)}</p>', lambda v, w, s: '<p>' + v + 'p' + w + 'p</p>'),
}
BASE = '<r><py:block name="k">($v)</py:block>-$w</r>'
PART = '<i><py:def function="g(x)">${x}p</py:def>${g(v)}</i>'
AB = chars('a<')


def template(S, body):
    X = S.kajiki.XMLTemplate
    L = S.kajiki.MockLoader({'t': X(BODIES[body][0]), 'base': X(BASE), 'part': X(PART, is_fragment=True)})
    return L.import_('t')


def fixed(i):
    return dict(v='2', w='a<', b=bool(i), none=None, s=['z'])


def context(S, i, lens=(1, 1), alphabet=AB, one=False):
    if one:
        return dict(v=S.str('v%d' % i, lens, alphabet), w='1', b=S.bool('b%d' % i), none=None, s=['q', '&'])
    return dict(v=S.str('v%d' % i, lens, alphabet), w=S.str('w%d' % i, lens, alphabet), b=S.bool('b%d' % i), none=None,
                s=[S.str('s%d' % i, (0, 1), alphabet), 'q'])


def expect(S, body, c):
    f = BODIES[body][1]
    v, w, s = esc(c['v']), esc(c['w']), [esc(x) for x in c['s']]
    if body == 'if':
        return '<p>' + (v if S.is_true(c['b']) else w) + '</p>'
    if body == 'strip':
        return '<p>' + (v if S.is_true(c['b']) else '<i>' + v + '</i>') + w + '</p>'
    if body == 'switch':
        return '<p>' + ('=' + v if S.is_true(c['v'] == c['w']) else v + w) + v + '</p>'
    if body == 'switch2':
        return '<p>' + ('no(' + w + ')' if S.is_true(c['v'] == c['w']) else '(' + v + ')' + w) + '</p>'
    if f == 'raw':
        return '<p>' + c['v'] + c['w'] + '</p>'
    return f(v, w, s)


def repeat(S, body, lens):
    """Any three renders, each with either context."""
    T = template(S, body)
    cs = [context(S, 0, lens, ANY, True), fixed(0)]
    for i in range(3):
        k = S.choice('k%d' % i, [0, 1])
        S.eq(T(cs[k]).render(), expect(S, body, cs[k]), 'render %d' % i)


def instance(S, body):
    """One instance rendered again; iterating gives the pieces of render()."""
    T = template(S, body)
    c = context(S, 0, one=True)
    t = T(c)
    w = expect(S, body, c)
    for i in range(3):
        how = S.choice('how%d' % i, ['render', 'iter', 'list'])
        if how == 'render':
            got = t.render()
        elif how == 'iter':
            got = ''
            for x in t:
                got = got + x
        else:
            got = ''.join(list(t))
        S.eq(got, w, 'use %d of one instance' % i)


def pull(it, n, out):
    for _ in range(n):
        try:
            out.append(next(it))
        except StopIteration:
            return


def streams(S, body, other, n):
    """Two streams, switching after k1 and k2 pieces."""
    T, U = template(S, body), template(S, other)
    if other == body and S.choice('same', [True, False]):
        U = T
    cs = [dict(v='1', w=S.str('w', (1, 1), AB), b=True, none=None, s=['x', 'y']), dict(v='2', w='1', b=False, none=None, s=['z'])]
    its = [iter(T(cs[0])), iter(U(cs[1]))]
    outs = [[], []]
    k = S.choice('first', [0, 1])
    pull(its[k], S.choice('k1', list(range(n))), outs[k])
    pull(its[1 - k], S.choice('k2', list(range(n))), outs[1 - k])
    pull(its[k], 1, outs[k])
    pull(its[1 - k], 1, outs[1 - k])
    pull(its[k], 1000, outs[k])
    pull(its[1 - k], 1000, outs[1 - k])
    S.eq(''.join(outs[0]), expect(S, body, cs[0]), 'first stream')
    S.eq(''.join(outs[1]), expect(S, other, cs[1]), 'second stream')


def abandon(S, body, n):
    """A render that is given up leaves no trace."""
    T = template(S, body)
    c = context(S, 0, one=True)
    d = fixed(1)
    t = T(c)
    it = iter(t)
    pull(it, S.choice('after', list(range(n))), [])
    if S.choice('close', [False, True]):
        it.close()
    same = S.choice('same', [False, True])
    S.eq((t if same else T(d)).render(), expect(S, body, c if same else d), 'after an abandoned render')
    S.eq(T(c).render(), expect(S, body, c), 'and again')


class Boom(Exception):
    pass


def failing(S, body, n):
    """A render that fails raises the original exception and leaves no trace."""
    T = template(S, body)
    c = context(S, 0)
    left = [S.choice('at', list(range(1, n + 1)))]

    class Val(object):
        def __str__(self):
            left[0] -= 1
            if left[0] == 0:
                raise Boom('x')
            return 'z'
    bad = dict(c, v=Val(), w=Val())
    t = T(bad)
    try:
        t.render()
    except Boom as e:
        S.check(e.args == ('x',), 'the exception itself')
    S.eq(T(c).render(), expect(S, body, c), 'after a failed render')


def unchanged(S, body):
    """The caller's context is only read."""
    T = template(S, body)
    c = context(S, 0)
    before = dict(c)
    keys = list(c)
    items = list(c['s'])
    T(c).render()
    S.check(list(c) == keys, 'names in the context changed', got=list(c))
    for k in keys:
        S.check(c[k] is before[k], 'value of %s replaced' % k)
    S.check(len(c['s']) == len(items), 'a list of the context was changed')
    # a context may be shared by several live instances
    t1, t2 = T(c), T(c)
    S.eq(t2.render(), expect(S, body, c), 'shared context')
    S.eq(t1.render(), expect(S, body, c), 'shared context')


def nocontext(S):
    """No context at all."""
    T = S.kajiki.XMLTemplate('<p>${defined("v")}<?py v = 1?>$v</p>')
    U = S.kajiki.XMLTemplate('<p>${defined("v")}${value_of("v", 7)}</p>')
    v = S.str('v', (0, 1), AB)
    for i in range(3):
        k = S.choice('k%d' % i, ['T()', 'T({})', 'U()', 'U(v)'])
        got = {'T()': lambda: T(), 'T({})': lambda: T({}), 'U()': lambda: U(), 'U(v)': lambda: U(dict(v=v))}[k]().render()
        S.eq(got, {'T()': '<p>False1</p>', 'T({})': '<p>False1</p>', 'U()': '<p>False7</p>', 'U(v)': '<p>True' + esc(v) + '</p>'}[k],
             'render %d' % i)


def globals_(S):
    """base_globals are shared by a template's renders, overridden by the context, and not changed by it."""
    g = S.str('g', (0, 1), AB)
    v = S.str('v', (0, 1), AB)
    base = dict(g=g, h='H')
    T = S.kajiki.XMLTemplate('<p>$g$h</p>', base_globals=base)
    for i in range(3):
        k = S.choice('k%d' % i, [0, 1])
        S.eq(T(dict(g=v) if k else {}).render(), '<p>' + esc(v if k else g) + 'H</p>', 'render %d' % i)
    S.check(sorted(base) == ['g', 'h'] and base['g'] is g, 'base_globals changed')
    U = S.kajiki.XMLTemplate('<p>${defined("g")}</p>')
    S.eq(U().render(), '<p>False</p>', 'globals of another template')


def compiled(S, body, other):
    """Compiling or rendering other templates in between changes nothing."""
    T = template(S, body)
    c = context(S, 0, (0, 1), one=True)
    d = fixed(1)
    S.eq(T(c).render(), expect(S, body, c), 'before')
    U = template(S, other)
    if S.choice('render', [False, True]):
        S.eq(U(d).render(), expect(S, other, d), 'the other one')
    S.eq(T(c).render(), expect(S, body, c), 'after')


INSIDE = {
    'expr': ('<p>${f(1)}$v${f(v)}</p>', lambda e, v: '<p>1' + e + e + '</p>'),
    'attr': ('<p a="${f(v)}" b="x${f(1)}$v">$v</p>', lambda e, v: '<p a="' + e + '" b="x1' + e + '">' + e + '</p>'),
    'attrs': ('<p py:attrs="dict(a=f(v), b=v)">$v</p>', lambda e, v: '<p a="' + e + '" b="' + e + '">' + e + '</p>'),
    'switch': ('<p><py:switch test="v"><py:case value="f(1)">a</py:case><py:case value="f(v)">b${f(v)}</py:case><py:else>c</py:else></py:switch>$v</p>',
               lambda e, v: '<p>b' + e + e + '</p>'),
    'switch2': ('<p><py:switch test="f(2)"><py:case value="f(1)">a</py:case><py:case value="2">${f(v)}<py:switch test="v"><py:case value="f(0)">d</py:case>'
                '<py:else>e</py:else></py:switch></py:case><py:else>c</py:else></py:switch>$v</p>', lambda e, v: '<p>' + e + 'e' + e + '</p>'),
    'else': ('<p><py:switch test="f(3)"><py:case value="f(1)">a</py:case><py:else>c${f(v)}</py:else></py:switch>$v</p>', lambda e, v: '<p>c' + e + e + '</p>'),
    'with': ('<p><py:with vars="x=f(v); y=f(1)">$x$y<py:with vars="x=f(2)">$x${f(x)}</py:with>$x${f(y)}</py:with></p>', lambda e, v: '<p>' + e + '122' + e + '1</p>'),
    'for': ('<p><i py:for="x in f([1, 2])">$x${f(v)}</i></p>', lambda e, v: '<p><i>1' + e + '</i><i>2' + e + '</i></p>'),
    'if': ('<p><py:if test="f(True)">${f(v)}</py:if><py:else>no</py:else></p>', lambda e, v: '<p>' + e + '</p>'),
    'strip': ('<p><i py:strip="f(True)">${f(v)}</i></p>', lambda e, v: '<p>' + e + '</p>'),
    'def': ('<p><py:def function="g(x)">$x${f(x)}</py:def>${g(f(v))}${f(1)}</p>', lambda e, v: '<p>' + e + e + '1</p>'),
    'call': ('<p><py:def function="g(c)">${f(1)}${c()}</py:def><py:call function="g(%caller)">${f(v)}$v</py:call></p>', lambda e, v: '<p>1' + e + e + '</p>'),
    'block': ('<p><py:block name="k">${f(v)}</py:block>${f(1)}</p>', lambda e, v: '<p>' + e + '1</p>'),
    'python': ('<p><?py x = f(v)?>$x${f(x)}</p>', lambda e, v: '<p>' + e + e + '</p>'),
    'extends': ('<py:extends href="fbase"><py:block name="k">${f(v)}${parent_block()}</py:block></py:extends>', lambda e, v: '<r>1' + e + '(' + e + ')</r>'),
    'include': ('<p>${f(1)}<py:include href="fpart"/>${f(v)}</p>', lambda e, v: '<p>1<i>' + e + 'p</i>' + e + '</p>'),
    'import': ('<p><py:import href="fpart" alias="l"/>${l.g(f(v))}${f(l.g(v))}</p>', lambda e, v: '<p>' + e + 'p' + e + 'p</p>'),
}


def inside(S, body, n):
    """A template rendered by an expression of a render in progress, to the end or not."""
    X = S.kajiki.XMLTemplate
    L = S.kajiki.MockLoader({'t': X(INSIDE[body][0]), 'fbase': X('<r>${f(1)}<py:block name="k">(${f(v)})</py:block></r>'),
                             'fpart': X('<i><py:def function="g(x)">${f(x)}p</py:def>${g(v)}</i>', is_fragment=True)})
    T = L.import_('t')
    v = S.str('v', (1, 1), AB)
    at = S.choice('at', list(range(1, n + 1)))
    act = S.choice('act', ['render', 'abandon', 'fail'])
    count = [0]
    other = '7'

    def plain(x):
        return x

    def f(x):
        count[0] += 1
        if count[0] == at:
            if act == 'render':
                S.eq(T(dict(v=other, f=plain)).render(), INSIDE[body][1](other, other), 'the inner render')
            elif act == 'abandon':
                pull(iter(T(dict(v=other, f=plain))), 3, [])
            else:
                def bad(y):
                    if y == other:
                        raise Boom('x')
                    return y
                try:
                    T(dict(v=other, f=bad)).render()
                except Boom:
                    pass
        return x
    S.eq(T(dict(v=v, f=f)).render(), INSIDE[body][1](esc(v), v), 'the outer render')


def plan(tier):
    big = tier != 'quick'
    names = sorted(BODIES)
    P = []
    for i, b in enumerate(names):
        P.append(('repeat', dict(body=b, lens=(0, 2) if big else (0, 1))))
        P.append(('instance', dict(body=b)))
        P.append(('streams', dict(body=b, other=b, n=8 if big else 6)))
        P.append(('abandon', dict(body=b, n=8 if big else 6)))
        P.append(('unchanged', dict(body=b)))
        if b != 'text':
            P.append(('failing', dict(body=b, n=6 if big else 4)))
        for o in (names if big else [names[(i + 7) % len(names)]]):
            if o != b:
                P.append(('compiled', dict(body=b, other=o)))
                P.append(('streams', dict(body=b, other=o, n=5)))
    P += [('inside', dict(body=b, n=6 if big else 5)) for b in sorted(INSIDE)]
    P += [('nocontext', {}), ('globals_', {})]
    P += [('many', dict(n=m, shape=s)) for m, s in ((40, 'renders'), (20, 'streams'))]
    return P
