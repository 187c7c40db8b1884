"""py:with: scoped assignment."""
from symkj.api import ANY, LOWER, chars, without, XMLNOCR
from props.ref import (Text, Expr, El, If, For, With, Def, FnCall, Root, Strip, Switch, esc, pyattr, shown)
from props.large import withs

BOUNDS = ('1..3 assignments per py:with, nested up to 3 deep around loops, conditions, functions and '
          'switches; symbolic values of 0..3 arbitrary characters; symbolic string literals of 0..3 '
          '(thorough 4) characters inside the assignment list, including ; = quotes and line breaks; '
          'variables bound before by an outer py:with, a loop, a function parameter or a Python block')
OUTSIDE = 'variables of the context that are shown in the same function before or after a py:with rebinding them'


def simple(S, form, n):
    v = S.str('v', (0, n), ANY)
    src = {'elem': '<p><py:with vars="x=v">$x</py:with></p>', 'attr': '<p py:with="x=v">$x</p>',
           'space': '<p py:with=" x = v ">$x</p>',
           'nl': '<p py:with="x=v;&#10; y=x">$y</p>', 'paren': '<p py:with="x=(v)">$x</p>',
           'tuple': '<p py:with="x=(v, 1)[0]">$x</p>', 'call': '<p py:with="x=dict(a=v)[\'a\']">$x</p>',
           'cmp': '<p py:with="x=(v if v == v else 0)">$x</p>',
           'lambda': '<p py:with="f=lambda y=v: y">${f()}</p>'}[form]
    out = S.kajiki.XMLTemplate(src)(dict(v=v)).render()
    S.eq(out, '<p>' + esc(v) + '</p>', 'py:with')


def order(S, shape, n):
    """Assignments run left to right; each sees the earlier ones."""
    v = S.str('v', (0, n), LOWER)
    src, f = {
        'chain': ('a=v; b=a + "-"; c=b + a', lambda v: (v, v + '-', v + '-' + v)),
        'tight': ('a=v;b=a+"-";c=b+a', lambda v: (v, v + '-', v + '-' + v)),
        'rebind': ('a=v; a=a + "x"; b=a; c=b', lambda v: (v + 'x', v + 'x', v + 'x')),
        'swap': ('a="1"; b=v; c=a; a=b; b=c', lambda v: (v, '1', '1')),
        'lines': ('a=v;\n  b=a + "-";\n  c=b + a', lambda v: (v, v + '-', v + '-' + v)),
        'eqeq': ('a=v; b=str(a == v); c=str(1 != 2)', lambda v: (v, 'True', 'True')),
        'kw': ('a=dict(k=v)["k"]; b=a; c="=" + a', lambda v: (v, v, '=' + v)),
        'le': ('a=v; b=str(1 <= 2); c=str(2 >= 3)', lambda v: (v, 'True', 'False')),
    }[shape]
    q = pyattr(src).replace('\n', '&#10;')
    out = S.kajiki.XMLTemplate('<p><py:with vars="' + q + '">$a|$b|$c</py:with></p>')(dict(v=v)).render()
    a, b, c = f(v)
    S.eq(out, '<p>' + esc(a) + '|' + esc(b) + '|' + esc(c) + '</p>', 'assignment order')


def literal(S, n, where):
    """String literals in the list may contain anything that does not look like an assignment."""
    s = S.str('s', (0, n), chars("a 1,;()'#<&]"))
    q = s.replace('&', '&amp;').replace('<', '&lt;')
    if where == 'one':
        src = '<p py:with="x=&quot;' + q + '&quot;">$x</p>'
        want = '<p>' + esc(s) + '</p>'
    else:
        src = '<p py:with="x=&quot;' + q + '&quot;; y=&quot;' + q + '&quot;">$x|$y</p>'
        want = '<p>' + esc(s) + '|' + esc(s) + '</p>'
    S.eq(S.kajiki.XMLTemplate(src)(dict()).render(), want, 'literal')


def semicolon(S, n):
    """A semicolon or an equals sign alone inside a literal does not split the list."""
    s = S.choice('s', [';', 'a;b', ';;', '; ', 'x;y;z', '=', 'a=b', '==', '=a', 'a==b', ';a', 'a;', ' ; '])
    t = S.str('t', (0, n), LOWER)
    src = '<p py:with="x=\'' + s + t + '\'; y=\'k\'">$x|$y</p>'
    S.eq(S.kajiki.XMLTemplate(src)(dict()).render(), '<p>' + s + t + '|k</p>', 'semicolon in literal')


def assignlike(S, where):
    """... not even when the literal looks like an assignment."""
    src = {'after': "x='a;b=c'", 'before': "x='b=c'; y='q;z=1'"}[where]
    v = S.str('v', (1, 1), LOWER)
    out = S.kajiki.XMLTemplate('<p py:with="' + src + '">$x$v</p>')(dict(v=v)).render()
    S.eq(out, '<p>' + {'after': 'a;b=c', 'before': 'b=c'}[where] + v + '</p>', 'assignment inside a literal')


def restore(S, bound, body, n):
    """After the block the variable has its previous value, whatever happened inside."""
    u = S.str('u', (0, n), ANY)
    v = S.str('v', (0, n), ANY)
    c = S.bool('c')
    inner, shown_inner = {
        'plain': ('$x', lambda: esc(v)),
        'py': ('$x<?py x = "changed"?>$x', lambda: esc(v) + 'changed'),
        'if': ('<py:if test="c">$x</py:if>', lambda: esc(v) if S.is_true(c) else ''),
        'for': ('<py:for each="i in (1, 2)">$x</py:for>', lambda: esc(v) + esc(v)),
        'forx': ('$x<py:for each="x in (1, 2)">$x</py:for>', lambda: esc(v) + '12'),
        'nested': ('<py:with vars="x=x + \'!\'">$x</py:with>$x', lambda: esc(v) + '!' + esc(v)),
        'twice': ('<py:with vars="x=1">$x</py:with><py:with vars="x=2">$x</py:with>$x',
                  lambda: '12' + esc(v)),
        'other': ('<py:with vars="y=x; x=3">$x$y</py:with>$x', lambda: '3' + esc(v) + esc(v)),
        'attr': ('<b a="$x"/>', lambda: '<b a="' + esc(v) + '"/>'),
        'switch': ('<py:switch test="c"><py:case value="True">$x</py:case><py:else>-</py:else></py:switch>',
                   lambda: esc(v) if S.is_true(c) else '-'),
        'empty': ('', lambda: ''),
        'reassign': ('<py:with vars="x=4; x=5">$x</py:with>$x', lambda: '5' + esc(v)),
    }[body]
    w = '$x<py:with vars="x=v">' + inner + '</py:with>$x'
    e = esc(u)
    src, reps = {
        'with': ('<py:with vars="x=u">' + w + '</py:with>', 1),
        'witha': ('<b py:with="x=u">' + w + '</b>', 1),
        'for': ('<py:for each="x in [u, u]">' + w + '</py:for>', 2),
        'param': ('<py:def function="f(x)">' + w + '</py:def>${f(u)}', 1),
        'py': ('<?py x = u?>' + w, 1),
        'inner': ('<py:def function="g()"><py:def function="f(x)">' + w + '</py:def>${f(u)}</py:def>${g()}', 1),
        'caller': ('<py:def function="f(k)">${k(u)}</py:def><py:call args="x" function="f(%caller)">' + w
                   + '</py:call>', 1),
        'block': ('<py:block name="k"><py:with vars="x=u">' + w + '</py:with></py:block>', 1),
    }[bound]
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(u=u, v=v, c=c)).render()
    one = e + shown_inner() + e
    want = one * reps
    if bound == 'witha':
        want = '<b>' + want + '</b>'
    S.eq(out, '<p>' + want + '</p>', 'previous value restored')


def multi(S, n):
    """Several variables are saved and restored, each its own."""
    a = S.str('a', (0, n), LOWER)
    b = S.str('b', (0, n), LOWER)
    out = S.kajiki.XMLTemplate(
        '<p py:with="x=a; y=b; z=\'z\'">$x$y$z|<py:with vars="z=x; x=y; y=z">$x$y$z</py:with>|$x$y$z</p>')(
        dict(a=a, b=b)).render()
    S.eq(out, '<p>' + a + b + 'z|' + b + a + a + '|' + a + b + 'z</p>', 'several variables')


def tuples(S, shape, n):
    """Several variables assigned at once, in any nesting of targets, are all restored."""
    u = [S.str('u%d' % i, (0, n), ANY) for i in range(3)]
    v = [S.str('v%d' % i, (0, n), ANY) for i in range(3)]
    src, f = {
        'pair': ('a, b = v0, v1', lambda: (v[0], v[1], u[2])),
        'paren': ('(a, b) = (v0, v1)', lambda: (v[0], v[1], u[2])),
        'tight': ('a,b=v0,v1;c=v2', lambda: (v[0], v[1], v[2])),
        'swap': ('a, b = b, a', lambda: (u[1], u[0], u[2])),
        'deep': ('a, (b, c) = v0, (v1, v2)', lambda: (v[0], v[1], v[2])),
        'later': ('a = v0; b, c = a, v2', lambda: (v[0], v[0], v[2])),
        'rotate': ('a, b, c = c, a, b', lambda: (u[2], u[0], u[1])),
        'one': ('a, = [v0]', lambda: (v[0], u[1], u[2])),
        'again': ('a, b = v0, v1; b, a = a, b', lambda: (v[1], v[0], u[2])),
    }[shape]
    ctx = dict(('u%d' % i, u[i]) for i in range(3))
    ctx.update(('v%d' % i, v[i]) for i in range(3))
    out = S.kajiki.XMLTemplate('<p py:with="a=u0; b=u1; c=u2">$a|$b|$c<i py:with="' + src + '">$a|$b|$c</i>$a|$b|$c</p>')(ctx).render()

    def show(t):
        return '|'.join([esc(x) for x in t])
    S.eq(out, '<p>' + show(u) + '<i>' + show(f()) + '</i>' + show(u) + '</p>', 'tuple targets')


def deep(S, n):
    """Three levels and a loop between them."""
    a = S.str('a', (0, n), LOWER)
    k = S.choice('k', [0, 1, 2])
    out = S.kajiki.XMLTemplate(
        '<p py:with="x=a">$x<py:for each="i in range(k)"><py:with vars="x=x + str(i)">$x'
        '<b py:with="x=x + \'.\'">$x</b>$x</py:with>$x</py:for>$x</p>')(dict(a=a, k=k)).render()
    want = '<p>' + a
    for i in range(k):
        s = a + str(i)
        want = want + s + '<b>' + s + '.</b>' + s + a
    S.eq(out, want + a + '</p>', 'three levels')


def calls(S, n):
    """A function called inside the block does not see or disturb the assignment."""
    a = S.str('a', (0, n), LOWER)
    out = S.kajiki.XMLTemplate(
        '<p><py:def function="f(x)"><py:with vars="x=x + \'f\'">$x</py:with>$x</py:def>'
        '<py:with vars="x=a">$x${f(\'q\')}$x${f(x)}$x</py:with></p>')(dict(a=a)).render()
    S.eq(out, '<p>' + a + 'qfq' + a + a + 'f' + a + a + '</p>', 'function inside py:with')


def recursion(S, n):
    """Every activation of a recursive function has its own scope."""
    a = S.str('a', (0, n), LOWER)
    d = S.choice('d', [0, 1, 2, 3])
    out = S.kajiki.XMLTemplate(
        '<p><py:def function="f(k)"><py:with vars="x=a + str(k)">$x<py:if test="k">${f(k - 1)}</py:if>'
        '$x</py:with></py:def>${f(d)}</p>')(dict(a=a, d=d)).render()

    def ref(k):
        s = a + str(k)
        return s + (ref(k - 1) if k else '') + s
    S.eq(out, '<p>' + ref(d) + '</p>', 'recursion')


def sibling(S, n):
    """A sibling block with the same variable starts afresh."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    out = S.kajiki.XMLTemplate('<p><i py:with="x=a">$x</i><b py:with="x=b">$x</b><i py:with="x=a">$x</i></p>')(
        dict(a=a, b=b)).render()
    S.eq(out, '<p><i>' + esc(a) + '</i><b>' + esc(b) + '</b><i>' + esc(a) + '</i></p>', 'siblings')


def context(S, where):
    """A context variable rebound by py:with is itself again outside the block."""
    v = S.str('v', (1, 1), LOWER)
    src = {'before': '<p>$v<py:with vars="v=1">$v</py:with></p>',
           'after': '<p><py:with vars="v=1">$v</py:with>$v</p>',
           'inside': '<p><py:with vars="v=v + \'x\'">$v</py:with></p>'}[where]
    out = S.kajiki.XMLTemplate(src)(dict(v=v)).render()
    want = {'before': v + '1', 'after': '1' + v, 'inside': v + 'x'}[where]
    S.eq(out, '<p>' + want + '</p>', 'context variable under py:with')


def text(S, n):
    """Functions and blocks elsewhere still see the context's own value."""
    v = S.str('v', (0, n), ANY)
    out = S.kajiki.XMLTemplate(
        '<p><py:def function="f()">$v</py:def><py:with vars="v=1">$v${f()}</py:with></p>')(dict(v=v)).render()
    S.eq(out, '<p>1' + esc(v) + '</p>', 'a function sees the context')


BOUND = ['with', 'witha', 'for', 'param', 'py', 'inner', 'caller', 'block']
BODY = ['plain', 'py', 'if', 'for', 'forx', 'nested', 'twice', 'other', 'attr', 'switch', 'empty', 'reassign']


def plan(tier):
    big = tier != 'quick'
    n = 3 if big else 2
    P = [('simple', dict(form=f, n=n + 1)) for f in ('elem', 'attr', 'space', 'nl', 'paren', 'tuple', 'call',
                                                    'cmp', 'lambda')]
    P += [('order', dict(shape=s, n=n)) for s in ('chain', 'tight', 'rebind', 'swap', 'lines', 'eqeq', 'kw', 'le')]
    P += [('literal', dict(n=3 if big else 2, where=w), dict(conc_cap=2000)) for w in ('one', 'two')]
    P += [('semicolon', dict(n=n))]
    P += [('restore', dict(bound=b, body=x, n=n if big else 1)) for b in BOUND for x in BODY]
    P += [('multi', dict(n=n)), ('deep', dict(n=n)), ('calls', dict(n=n)), ('recursion', dict(n=n)),
          ('sibling', dict(n=n)), ('text', dict(n=n))]
    P += [('tuples', dict(shape=s, n=1)) for s in ('pair', 'paren', 'tight', 'swap', 'deep', 'later', 'rotate', 'one', 'again')]
    P += [('assignlike', dict(where=w)) for w in ('after', 'before')]
    P += [('context', dict(where=w)) for w in ('before', 'after', 'inside')]
    P += [('withs', dict(n=m, shape=s)) for m, s in ((15, 'deep'), (40, 'vars'), (60, 'repeat'))]
    return P
