"""Template functions: py:def, py:call."""
from symkj.api import ANY, LOWER, chars
from props.ref import esc, shown
from props.large import functions

BOUNDS = ('1..4 functions, nested up to 3 deep, every acyclic call graph over 3 functions (thorough 4), recursion to depth 4; '
          'parameters positional, by keyword, with defaults, starred; call bodies with 0..2 parameters called 0..3 times; symbolic '
          'arguments of 0..2 (thorough 3) arbitrary characters, sequences of 0..3 items, symbolic conditions')
OUTSIDE = ('functions defined inside loops, py:with or call bodies that use the variables of these; template functions shown inside '
           'attribute values; two functions of the same name; py:call as an attribute with arguments')


def run(S, src, ctx, want, msg, **kw):
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>', **kw)(ctx).render()
    S.eq(out, '<p>' + want + '</p>', msg)


SIGS = {
    'none': ('f()', 'x', 'f()', lambda a, b: 'x'),
    'one': ('f(x)', '[$x]', 'f(a)', lambda a, b: '[' + esc(a) + ']'),
    'two': ('f(x, y)', '$x|$y', 'f(a, b)', lambda a, b: esc(a) + '|' + esc(b)),
    'order': ('f(x, y)', '$y|$x', 'f(a, b)', lambda a, b: esc(b) + '|' + esc(a)),
    'kw': ('f(x, y)', '$x|$y', 'f(y=a, x=b)', lambda a, b: esc(b) + '|' + esc(a)),
    'default': ("f(x, y='d')", '$x|$y', 'f(a)', lambda a, b: esc(a) + '|d'),
    'default2': ("f(x, y='d')", '$x|$y', 'f(a, b)', lambda a, b: esc(a) + '|' + esc(b)),
    'defkw': ("f(x=1, y=2)", '$x|$y', 'f(y=a)', lambda a, b: '1|' + esc(a)),
    'defmid': ("f(x, y=2, z=3)", '$x|$y|$z', 'f(a, z=b)', lambda a, b: esc(a) + '|2|' + esc(b)),
    'star': ('f(*xs)', '<py:for each="x in xs">$x,</py:for>', 'f(a, b)', lambda a, b: esc(a) + ',' + esc(b) + ','),
    'star0': ('f(*xs)', '<py:for each="x in xs">$x,</py:for>', 'f()', lambda a, b: ''),
    'kwargs': ('f(**k)', "${k['u']}${k['w']}", 'f(u=a, w=b)', lambda a, b: esc(a) + esc(b)),
    'mixed': ("f(x, *y, **z)", "$x${len(y)}${z['k']}", 'f(a, 1, 2, k=b)', lambda a, b: esc(a) + '2' + esc(b)),
    'spread': ('f(x, y)', '$x|$y', 'f(*[a, b])', lambda a, b: esc(a) + '|' + esc(b)),
    'dict': ('f(x, y)', '$x|$y', 'f(**dict(x=a, y=b))', lambda a, b: esc(a) + '|' + esc(b)),
    'kwonly': ("f(x, *, y='d')", '$x|$y', 'f(a)', lambda a, b: esc(a) + '|d'),
    'kwonly2': ("f(x, *, y='d')", '$x|$y', 'f(a, y=b)', lambda a, b: esc(a) + '|' + esc(b)),
    'kwonly3': ("f(*xs, y='d', z)", '${len(xs)}$y$z', 'f(1, 2, z=a)', lambda a, b: '2d' + esc(a)),
    'posonly': ("f(x, /, y='d')", '$x|$y', 'f(a)', lambda a, b: esc(a) + '|d'),
    'annotated': ("f(x: str, y: str='d')", '$x|$y', 'f(a)', lambda a, b: esc(a) + '|d'),
    'defexpr': ("f(x, y=('d', 'e')[1])", '$x|$y', 'f(a)', lambda a, b: esc(a) + '|e'),
    'shadow': ('f(a)', '$a', 'f(b)', lambda a, b: esc(b)),
    'context': ('f(x)', '$x$a', 'f(b)', lambda a, b: esc(b) + esc(a)),
    'space': ('f( x , y )', '$x|$y', 'f(a, b)', lambda a, b: esc(a) + '|' + esc(b)),
    'noneval': ('f(x)', '[$x]', 'f(None)', lambda a, b: '[]'),
    'elem': ('f(x)', '<b c="$x">$x</b>', 'f(a)', lambda a, b: '<b c="' + esc(a) + '">' + esc(a) + '</b>'),
    'expr': ('f(x)', '${x + a}', 'f(b)', lambda a, b: esc(b + a)),
}


def sig(S, s, form, n):
    """Arguments are bound as Python binds them."""
    decl, body, call, want = SIGS[s]
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    w = want(a, b)
    d = decl.replace('"', '&quot;')
    if form == 'elem':
        src = '<py:def function="' + d + '">' + body + '</py:def>(${' + call + '})'
    elif form == 'attr':
        src, w = '<i py:def="' + d + '">' + body + '</i>(${' + call + '})', '<i>' + w + '</i>'
    elif form == 'after':
        src = '(${' + call + '})<py:def function="' + d + '">' + body + '</py:def>'
    elif form == 'inner':
        src = ('<py:def function="g()"><py:def function="' + d + '">' + body + '</py:def>(${' + call + '})</py:def>${g()}')
        return run(S, src, dict(a=a, b=b), '(' + w + ')', 'inner function')
    elif form == 'twice':
        src, w = '<py:def function="' + d + '">' + body + '</py:def>(${' + call + '}${' + call + '})', w + w
    elif form == 'replace':
        src = '<py:def function="' + d + '">' + body + '</py:def>(<i py:replace="' + call.replace('"', '&quot;') + '"/>)'
    elif form == 'content':
        src = '<py:def function="' + d + '">' + body + '</py:def>(<i py:content="' + call + '"/>)'
        w = '<i>' + w + '</i>'
    elif form == 'py':
        src = '<py:def function="' + d + '">' + body + '</py:def><?py r = ' + call + '?>($r)'
    elif form == 'with':
        src = '<py:def function="' + d + '">' + body + '</py:def>(<py:with vars="r=' + call + '">$r</py:with>)'
    elif form == 'list':
        src = '<py:def function="' + d + '">' + body + '</py:def>(<py:for each="r in [' + call + ', ' + call + ']">$r</py:for>)'
        w = w + w
    elif form == 'cond':
        src = '<py:def function="' + d + '">' + body + '</py:def>(${' + call + ' if a == a else 1})'
    elif form == 'self':
        src = '<py:def function="' + d + '">' + body + '</py:def>(${self.' + call + '})'
    elif form == 'local':
        src = '<py:def function="' + d + '">' + body + '</py:def>(${local.' + call + '})'
    if form == 'with':
        S.assume(True)
    run(S, src, dict(a=a, b=b), '(' + w + ')', 'function call')


FORMS = ['elem', 'attr', 'after', 'inner', 'twice', 'replace', 'content', 'py', 'list', 'cond', 'self', 'local', 'with']


def badcall(S):
    """A call that Python would refuse is refused."""
    x = S.choice('x', ['f()', 'f(1, 2)', 'f(y=1)', 'f(1, x=2)', 'g()', 'f(**{"z": 1})'])
    where = S.choice('where', ['top', 'inner'])
    if where == 'top':
        src = '<p><py:def function="f(x)">$x</py:def>${' + x + '}</p>'
    else:
        src = '<p><py:def function="h()"><py:def function="f(x)">$x</py:def>${' + x + '}</py:def>${h()}</p>'
    try:
        S.kajiki.XMLTemplate(src)(dict()).render()
    except Exception as e:
        S.check(type(e).__name__ in ('TypeError', 'NameError'), 'kind of error', got=type(e).__name__)
        return
    S.fail('a wrong call was accepted', src=src)


def graph(S, n, k):
    """Every acyclic call graph: f_i calls any of the later ones, before or after its own text."""
    a = S.str('a', (0, k), LOWER)
    calls = {}
    for i in range(n):
        for j in range(i + 1, n):
            calls[i, j] = S.choice('e%d%d' % (i, j), ['', 'before', 'after'] if n < 4 else ['', 'after'])
    rev = S.choice('order', [False, True])
    defs = []
    for i in range(n):
        b = ''.join(['${f%d(x + "%d")}' % (j, i) for j in range(i + 1, n) if calls[i, j] == 'before'])
        c = ''.join(['${f%d(x + "%d")}' % (j, i) for j in range(i + 1, n) if calls[i, j] == 'after'])
        defs.append('<py:def function="f%d(x)">%s{%s$x}%s</py:def>' % (i, b, i, c))
    if rev:
        defs.reverse()

    def ref(i, x):
        out = ''
        for j in range(i + 1, n):
            if calls[i, j] == 'before':
                out = out + ref(j, x + str(i))
        out = out + '{' + str(i) + x + '}'
        for j in range(i + 1, n):
            if calls[i, j] == 'after':
                out = out + ref(j, x + str(i))
        return out
    run(S, ''.join(defs) + '${f0(a)}', dict(a=a), ref(0, a), 'call graph')


def recur(S, shape, n):
    a = S.str('a', (0, n), ANY)
    d = S.choice('d', [0, 1, 2, 3, 4])
    if shape == 'plain':
        src = '<py:def function="f(k)"><i>$a<py:if test="k">${f(k - 1)}</py:if></i></py:def>${f(d)}'

        def ref(k):
            return '<i>' + esc(a) + (ref(k - 1) if k else '') + '</i>'
        w = ref(d)
    elif shape == 'tree':
        src = '<py:def function="f(k)"><py:if test="k">(${f(k - 1)}$a${f(k - 1)})</py:if><py:else>.</py:else></py:def>${f(d)}'

        def ref(k):
            return '(' + ref(k - 1) + esc(a) + ref(k - 1) + ')' if k else '.'
        w = ref(d)
    elif shape == 'mutual':
        src = ('<py:def function="e(k)">e<py:if test="k">${o(k - 1)}</py:if></py:def>'
               '<py:def function="o(k)">o$a<py:if test="k">${e(k - 1)}</py:if></py:def>${e(d)}')

        def ref(k, even=True):
            return ('e' if even else 'o' + esc(a)) + (ref(k - 1, not even) if k else '')
        w = ref(d)
    elif shape == 'inner':
        src = ('<py:def function="g(z)"><py:def function="f(k)">$z<py:if test="k">${f(k - 1)}</py:if></py:def>${f(d)}</py:def>'
               '${g(a)}')
        w = esc(a) * (d + 1)
    elif shape == 'acc':
        src = '<py:def function="f(k, s)"><py:if test="k">${f(k - 1, s + a)}</py:if><py:else>$s</py:else></py:def>${f(d, "")}'
        w = esc(a * d)
    else:
        src = ('<py:def function="f(l)"><ul><li py:for="x in l"><py:if test="isinstance(x, list)">${f(x)}</py:if>'
               '<py:else>$x</py:else></li></ul></py:def>${f(l)}')
        l = [a, [a, []], a][:d]

        def ref(x):
            out = '<ul>'
            for y in x:
                out = out + '<li>' + (ref(y) if isinstance(y, list) else esc(y)) + '</li>'
            return out + '</ul>' if x else '<ul></ul>'
        return run(S, src, dict(a=a, l=l), ref(l), 'recursion over a tree')
    run(S, src, dict(a=a, d=d), w, 'recursion')


NESTED = {
    'three': ('<py:def function="f(x)"><py:def function="g(y)"><py:def function="h(z)">$x$y$z</py:def>${h(c)}</py:def>${g(b)}'
              '</py:def>${f(a)}', lambda a, b, c: esc(a) + esc(b) + esc(c)),
    'shadow': ('<py:def function="f(x)"><py:def function="g(x)"><py:def function="h(x)">$x</py:def>$x${h(c)}$x</py:def>$x${g(b)}$x'
               '</py:def>${f(a)}', lambda a, b, c: esc(a) + esc(b) + esc(c) + esc(b) + esc(a)),
    'siblings': ('<py:def function="f(x)"><py:def function="g()">g$x</py:def><py:def function="h()">h${g()}</py:def>${h()}${g()}'
                 '</py:def>${f(a)}${f(b)}', lambda a, b, c: 'hg' + esc(a) + 'g' + esc(a) + 'hg' + esc(b) + 'g' + esc(b)),
    'after': ('<py:def function="f(x)"><py:def function="g()">$x</py:def>${g()}</py:def><py:def function="h()">$c</py:def>'
              '${f(a)}${h()}${f(b)}', lambda a, b, c: esc(a) + esc(c) + esc(b)),
    'top': ('<py:def function="f()"><py:def function="g()">$a</py:def>${g()}${h()}</py:def>${f()}<py:def function="h()">$b</py:def>${h()}',
            lambda a, b, c: esc(a) + esc(b) + esc(b)),
    'samename': ('<py:def function="f()"><py:def function="g()">$a</py:def>${g()}</py:def><py:def function="k()">'
                 '<py:def function="g()">$b</py:def>${g()}</py:def>${f()}${k()}${f()}',
                 lambda a, b, c: esc(a) + esc(b) + esc(a)),
    'hide': ('<py:def function="g()">$c</py:def><py:def function="f()"><py:def function="g()">$a</py:def>${g()}</py:def>${g()}${f()}${g()}',
             lambda a, b, c: esc(c) + esc(a) + esc(c)),
    'withvar': ('<py:def function="f(x)"><py:with vars="y=x + b"><py:def function="g()">$y</py:def>${g()}</py:with></py:def>${f(a)}',
                lambda a, b, c: esc(a + b)),
    'loopvar': ('<py:def function="f()"><py:for each="x in (a, b)"><py:def function="g()">$x</py:def>${g()}</py:for></py:def>${f()}',
                lambda a, b, c: esc(a) + esc(b)),
    'ifdef': ('<py:def function="f(q)"><py:if test="q"><py:def function="g()">$a</py:def>${g()}</py:if><py:else>$b</py:else></py:def>'
              '${f(1)}${f(0)}', lambda a, b, c: esc(a) + esc(b)),
    'passfn': ('<py:def function="f(x)">[$x]</py:def><py:def function="g(k)">${k(a)}${k(b)}</py:def>${g(f)}',
               lambda a, b, c: '[' + esc(a) + '][' + esc(b) + ']'),
    'passinner': ('<py:def function="g(k)">${k(a)}</py:def><py:def function="h(z)"><py:def function="f(x)">$x$z</py:def>${g(f)}</py:def>'
                  '${h(b)}${h(c)}', lambda a, b, c: esc(a) + esc(b) + esc(a) + esc(c)),
    'compose': ('<py:def function="f(x)"><i>$x</i></py:def><py:def function="g(x)"><b>$x</b></py:def>${f(g(f(a)))}',
                lambda a, b, c: '<i><b><i>' + esc(a) + '</i></b></i>'),
    'listcomp': ('<py:def function="f(x)"><i>$x</i></py:def><py:for each="y in [f(x) for x in (a, b, c)]">$y,</py:for>',
                 lambda a, b, c: '<i>' + esc(a) + '</i>,<i>' + esc(b) + '</i>,<i>' + esc(c) + '</i>,'),
    'elemdef': ('<div py:def="f(x)" id="$x"><br/>$x</div>${f(a)}${f(b)}',
                lambda a, b, c: '<div id="' + esc(a) + '"><br/>' + esc(a) + '</div><div id="' + esc(b) + '"><br/>' + esc(b) + '</div>'),
    'defif': ('<i py:def="f(x)" py:if="x == a">$x</i>${f(a)}', lambda a, b, c: '<i>' + esc(a) + '</i>'),
    'deffor': ('<i py:def="f(s)" py:for="x in s">$x</i>${f([a, b])}', lambda a, b, c: '<i>' + esc(a) + '</i><i>' + esc(b) + '</i>'),
    'nothing': ('a<py:def function="f()">x${1/0}</py:def>b<i py:def="g()">y</i>c', lambda a, b, c: 'abc'),
    'pylocal': ('<py:def function="f(x)"><?py x = x + b?>$x</py:def><py:with vars="x=c">$x${f(a)}$x</py:with>',
                lambda a, b, c: esc(c) + esc(a + b) + esc(c)),
    'block': ('<py:block name="k"><py:def function="f(x)">[$x]</py:def>${f(a)}</py:block>${f(b)}',
              lambda a, b, c: '[' + esc(a) + '][' + esc(b) + ']'),
    'switch': ('<py:def function="f(x)"><py:switch test="x"><py:case value="a">A</py:case><py:else>$x</py:else></py:switch></py:def>${f(a)}',
               lambda a, b, c: 'A'),
    'many': (''.join(['<py:def function="f%d(x)">%d$x</py:def>' % (i, i) for i in range(8)]) + ''.join(
        ['${f%d(a)}' % i for i in (3, 0, 7, 3)]), lambda a, b, c: ''.join([str(i) + esc(a) for i in (3, 0, 7, 3)])),
}


def nested(S, s, n):
    """Scopes of functions inside functions."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    c = S.str('c', (0, n), ANY)
    src, want = NESTED[s]
    run(S, src, dict(a=a, b=b, c=c), want(a, b, c), 'nested functions')


CALLS = {
    'plain': ('<py:def function="f(k)">[${k()}]</py:def>', '<py:call function="f(%caller)">$a</py:call>',
              lambda a, b, s: '[' + esc(a) + ']'),
    'args': ('<py:def function="f(k)">[${k(a)}]</py:def>', '<py:call args="x" function="f(%caller)">$x$b</py:call>',
             lambda a, b, s: '[' + esc(a) + esc(b) + ']'),
    'args2': ('<py:def function="f(k)">[${k(a, b)}]</py:def>', '<py:call args="x, y" function="f(%caller)">$y$x</py:call>',
              lambda a, b, s: '[' + esc(b) + esc(a) + ']'),
    'default': ('<py:def function="f(k)">[${k(a)}${k(a, b)}]</py:def>',
                '<py:call args="x, y=\'d\'" function="f(%caller)">$y$x</py:call>',
                lambda a, b, s: '[d' + esc(a) + esc(b) + esc(a) + ']'),
    'extra': ('<py:def function="f(k, z)">[${k()}$z]</py:def>', '<py:call function="f(%caller, b)">$a</py:call>',
              lambda a, b, s: '[' + esc(a) + esc(b) + ']'),
    'extra2': ('<py:def function="f(z, k)">[${k()}$z]</py:def>', '<py:call function="f(b, k=%caller)">$a</py:call>',
               lambda a, b, s: '[' + esc(a) + esc(b) + ']'),
    'loop': ('<py:def function="f(k)"><py:for each="x in s">${k(x)};</py:for></py:def>',
             '<py:call args="x" function="f(%caller)"><i>$x</i>$b</py:call>',
             lambda a, b, s: ''.join(['<i>' + esc(x) + '</i>' + esc(b) + ';' for x in s])),
    'twice': ('<py:def function="f(k)">${k()}${k()}</py:def>', '<py:call function="f(%caller)">$a</py:call>',
              lambda a, b, s: esc(a) + esc(a)),
    'never': ('<py:def function="f(k)">[]</py:def>', '<py:call function="f(%caller)">${1/0}</py:call>', lambda a, b, s: '[]'),
    'two': ('<py:def function="f(k)">[${k()}]</py:def>',
            '<py:call function="f(%caller)">$a</py:call><py:call function="f(%caller)">$b</py:call>',
            lambda a, b, s: '[' + esc(a) + '][' + esc(b) + ']'),
    'nested': ('<py:def function="f(k)">[${k()}]</py:def>',
               '<py:call function="f(%caller)">$a<py:call function="f(%caller)">$b</py:call>$a</py:call>',
               lambda a, b, s: '[' + esc(a) + '[' + esc(b) + ']' + esc(a) + ']'),
    'nestargs': ('<py:def function="f(k, v)">[${k(v)}]</py:def>',
                 '<py:call args="x" function="f(%caller, a)">$x<py:call args="y" function="f(%caller, b)">$x$y</py:call>$x</py:call>',
                 lambda a, b, s: '[' + esc(a) + '[' + esc(a) + esc(b) + ']' + esc(a) + ']'),
    'both': ('<py:def function="f(k, l)">${k()}|${l()}</py:def>', '<py:call function="f(%caller, %caller)">$a</py:call>',
             lambda a, b, s: esc(a) + '|' + esc(a)),
    'passed': ('<py:def function="f(k)">(${k()})</py:def><py:def function="g(k)">[${f(k)}]</py:def>',
               '<py:call function="g(%caller)">$a</py:call>', lambda a, b, s: '[(' + esc(a) + ')]'),
    'callcall': ('<py:def function="f(k)">(${k()})</py:def><py:def function="g(k)">[<py:call function="f(%caller)">-${k()}-</py:call>]</py:def>',
                 '<py:call function="g(%caller)">$a</py:call>', lambda a, b, s: '[(-' + esc(a) + '-)]'),
    'inloop': ('<py:def function="f(k)">[${k()}]</py:def>', '<py:for each="x in s"><py:call function="f(%caller)">$x</py:call></py:for>',
               lambda a, b, s: ''.join(['[' + esc(x) + ']' for x in s])),
    'inif': ('<py:def function="f(k)">[${k()}]</py:def>',
             '<py:if test="a == b"><py:call function="f(%caller)">$a</py:call></py:if><py:else>no</py:else>', None),
    'inwith': ('<py:def function="f(k)">[${k()}]</py:def>', '<py:with vars="x=a"><py:call function="f(%caller)">$x</py:call></py:with>',
               lambda a, b, s: '[' + esc(a) + ']'),
    'indef': ('<py:def function="f(k)">[${k()}]</py:def><py:def function="h(x)"><py:call function="f(%caller)">$x</py:call></py:def>',
              '${h(a)}${h(b)}', lambda a, b, s: '[' + esc(a) + '][' + esc(b) + ']'),
    'body': ('<py:def function="f(k)">[${k()}]</py:def>',
             '<py:call function="f(%caller)"><py:for each="x in s"><i>$x</i></py:for><py:if test="True">y</py:if></py:call>',
             lambda a, b, s: '[' + ''.join(['<i>' + esc(x) + '</i>' for x in s]) + 'y]'),
    'attr': ('<py:def function="f(k)">[${k()}]</py:def>', '<u py:call="f(%caller)">$a</u>', lambda a, b, s: '[<u>' + esc(a) + '</u>]'),
    'attrel': ('<py:def function="f(k)">[${k()}]</py:def>', '<u py:call="f(%caller)" c="$b"/>', lambda a, b, s: '[<u c="' + esc(b) + '"/>]'),
    'empty': ('<py:def function="f(k)">[${k()}]</py:def>', '<py:call function="f(%caller)"/>', lambda a, b, s: '[]'),
    'python': ('', '<py:call function="pyf(%caller)">$a</py:call>', lambda a, b, s: esc(a)),
}


def pyf(k):
    return k()


def call(S, s, n):
    """py:call hands its body over as a function of its own."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    items = []
    if s in ('loop', 'inloop', 'body'):
        items = [S.str('s%d' % i, (1, 1), ANY) for i in range(S.choice('len', [0, 1, 2, 3]))]
    defs, use, want = CALLS[s]
    before = S.choice('before', [True, False])
    if want is None:
        w = '[' + esc(a) + ']' if S.is_true(a == b) else 'no'
    else:
        w = want(a, b, items)
    run(S, (defs + use) if before else use + defs, dict(a=a, b=b, s=items, pyf=pyf), w, 'py:call')


def python_callable(S, n):
    """Functions of the context are ordinary Python functions; their results are escaped."""
    a = S.str('a', (0, n), ANY)
    k = S.choice('k', ['str', 'none', 'int', 'list'])
    r = {'str': a, 'none': None, 'int': 3, 'list': [1, 2]}[k]
    run(S, '${fn(a)}<py:def function="g(h)">${h(a)}</py:def>${g(fn)}', dict(a=a, fn=lambda x: r), shown(r) * 2,
        'Python function')


QUIET = {'empty': '', 'py': '<?py x = 1?>', 'with': '<py:with vars="x=1"></py:with>', 'for': '<py:for each="i in [1]"><?py x = i?></py:for>',
         'def': '<py:def function="gg()">no</py:def>', 'import': '<py:import href="x"/>', 'if': '<py:if test="False"><?py x = 1?></py:if>',
         'log': '<?py log.append(1)?>', 'hidden': '<!--! note -->', 'strip': '<b py:strip="True"/>', 'none': '${None}',
         'switch': '<py:switch test="1"><py:case value="2"><?py x = 1?></py:case></py:switch>'}


def silent(S, body, form):
    """A function, block or call body that outputs nothing."""
    v = S.str('v', (0, 1), ANY)
    b = QUIET[body]
    src = {'def': '<py:def function="f()">' + b + '</py:def>$v${f()}|${f()}',
           'after': '$v${f()}|${f()}<py:def function="f()">' + b + '</py:def>',
           'block': '$v<py:block name="k">' + b + '</py:block>|',
           'call': '<py:def function="f(c)">${c()}|${c()}</py:def>$v<py:call args="" function="f(%caller)">' + b + '</py:call>',
           'inner': '<py:def function="f()"><py:def function="h()">' + b + '</py:def>${h()}|${h()}</py:def>$v${f()}',
           'attr': '<i py:def="f()" py:strip="True">' + b + '</i>$v${f()}|'}[form]
    log = []
    X = S.kajiki.XMLTemplate
    T = S.kajiki.MockLoader({'a': X('<p>' + src + '</p>'), 'x': X('<b/>')}).import_('a')
    S.eq(T(dict(v=v, log=log)).render(), '<p>' + esc(v) + '|</p>', 'nothing is shown')
    if body == 'log':
        S.check(len(log) == (1 if form in ('block', 'attr') else 2), 'evaluated when shown')
        del log[:]
        for x in T(dict(v=v, log=log)):
            S.check(log == [], 'evaluated before the text in front of it was delivered')
            if is_last(x, v):
                break


def is_last(x, v):
    return len(x) > 0 and (x == '<p>' + esc(v) or x == esc(v))


def plan(tier):
    big = tier != 'quick'
    n = 2 if big else 1
    P = [('sig', dict(s=s, form=f, n=n)) for s in sorted(SIGS) for f in FORMS
         if big or f in ('elem', 'inner', 'after') or s in ('two', 'default', 'star', 'elem')]
    P += [('badcall', {}), ('graph', dict(n=3, k=2))]
    if big:
        P += [('graph', dict(n=4, k=1))]
    P += [('recur', dict(shape=s, n=n)) for s in ('plain', 'tree', 'mutual', 'inner', 'acc', 'list')]
    P += [('nested', dict(s=s, n=n)) for s in sorted(NESTED)]
    P += [('call', dict(s=s, n=n)) for s in sorted(CALLS)]
    P += [('silent', dict(body=b, form=f)) for b in sorted(QUIET) for f in ('def', 'after', 'block', 'call', 'inner', 'attr')]
    P += [('python_callable', dict(n=n + 1))]
    P += [('functions', dict(n=m, shape=s)) for m, s in ((40, 'many'), (30, 'params'), (40, 'recurse'), (10, 'nested'), (70, 'body'))]
    return P
