"""Large templates and values: the same guarantees, far from the small cases.

Sizes are fixed per scenario (and stated in the bounds); values, conditions and the place that
matters stay symbolic."""
from symkj.api import ANY, LOWER, XMLNOCR, chars, without
from props.ref import esc, esc_text

TXT = without(XMLNOCR, '$')


def xt(S, src, ctx=None, **kw):
    return S.kajiki.XMLTemplate(src, **kw)(ctx).render()


def sub(s):
    return s.translate({38: '&amp;', 60: '&lt;'})


def val(S, name='v', n=1):
    return S.str(name, (0, n), ANY)


# ---------------------------------------------------------------- C01, C02, C03, C04
def values(S, n):
    """Many values in one text."""
    v = val(S)
    k = S.choice('k', [0, 1, n // 2, n - 1])
    ctx = dict(('v%d' % i, v if i == k else '<%d' % i) for i in range(n))
    out = xt(S, '<p>' + '-'.join(['${v%d}' % i for i in range(n)]) + '</p>', ctx)
    S.eq(out, '<p>' + '-'.join([esc(v) if i == k else '&lt;%d' % i for i in range(n)]) + '</p>', 'many values')


def attributes(S, n, mode):
    """Many attributes on one element, each of its own value."""
    v = val(S)
    k = S.choice('k', [0, 1, n // 2, n - 1])
    none = S.choice('none', [2, n - 2])
    names = ['a%03d' % ((i * 7) % n) for i in range(n)]
    ctx = dict((a, None if i == none else v if i == k else '<%d' % i) for i, a in enumerate(names))
    out = xt(S, '<p ' + ' '.join([a + '="$' + a + '"' for a in names]) + '>x</p>', ctx, mode=mode, is_fragment=True)
    want = ''.join([' ' + a + '="' + esc(ctx[a]) + '"' for a in sorted(names) if ctx[a] is not None])
    S.eq(out, '<p' + want + '>x</p>', 'many attributes')


def attrparts(S, n):
    """An attribute of many parts."""
    v = val(S)
    k = S.choice('k', [0, n // 2, n - 1])
    ctx = dict(('v%d' % i, v if i == k else None) for i in range(n))
    out = xt(S, '<p a="' + ''.join(['${v%d}' % i for i in range(n)]) + '"/>', ctx)
    S.eq(out, '<p a="' + esc(v) + '"/>', 'many parts')


def markup(S, n, how):
    """Long trusted markup beside long untrusted text; functions shown in functions."""
    v = val(S)
    fill = '<b>&' * n
    if how == 'long':
        S.eq(xt(S, '<p>${literal(m)}|${m}</p>', dict(m=fill + v)), '<p>' + fill + v + '|' + esc(fill + v) + '</p>', 'long markup')
        return
    fs = ''.join(['<py:def function="f%d(x)">%s</py:def>' % (i, '<i>&lt;$x</i>' if i == 0 else '<u>${f%d(x)}</u>' % (i - 1)) for i in range(n)])
    S.eq(xt(S, '<p>' + fs + '${f%d(v)}</p>' % (n - 1), dict(v=v)),
         '<p>' + '<u>' * (n - 1) + '<i>&lt;' + esc(v) + '</i>' + '</u>' * (n - 1) + '</p>', 'functions in functions')


def pairs(S, n, kind):
    """py:attrs with many pairs."""
    v = val(S)
    k = S.choice('k', [0, 1, n // 2, n - 1])
    ps = [('a%03d' % ((i * 7) % n), None if i % 5 == 2 and i != k else v if i == k else '"%d' % i) for i in range(n)]
    given = dict(ps) if kind == 'dict' else ps if kind == 'list' else iter(ps)
    out = xt(S, '<p py:attrs="a" z="1">x</p>', dict(a=given))
    both = sorted(dict(ps).items())
    want = ''.join([' ' + a + '="' + esc(x) + '"' for a, x in both if x is not None])
    S.check(out == '<p z="1"' + want + '>x</p>' or out == '<p' + want + ' z="1">x</p>', 'many pairs')


# ---------------------------------------------------------------- C05, C06
def text(S, n, shape):
    s = S.str('s', (0, 2), TXT)
    S.assume('>' not in s if shape == 'long' else True)
    fill = ('lorem & <ipsum>\n' * n)[:n]
    if shape == 'long':
        S.eq(xt(S, '<p>' + sub(fill + s + fill) + '</p>'), '<p>' + esc_text(fill + s + fill) + '</p>', 'long text')
    elif shape == 'nodes':
        k = S.choice('k', [0, n // 2, n - 1])
        S.eq(xt(S, '<p>' + ''.join(['t%d<b>%s</b>' % (i, '') if i != k else 't<b>' + sub(s) + '</b>' for i in range(n)]) + '</p>'),
             '<p>' + ''.join(['t%d<b/>' % i if i != k else 't<b>' + esc_text(s) + '</b>' if len(s) else 't<b/>' for i in range(n)]) + '</p>', 'many nodes')
    elif shape == 'deep':
        S.eq(xt(S, '<p>' + 'a<b>' * n + sub(s) + '</b>c' * n + '</p>'), '<p>' + 'a<b>' * n + esc_text(s) + '</b>c' * n + '</p>'
             if len(s) else '<p>' + 'a<b>' * (n - 1) + 'a<b/>c' + '</b>c' * (n - 1) + '</p>', 'deep elements')
    else:
        S.assume('-' not in s)
        S.eq(xt(S, '<p>' + ('<!--x-->y' * n) + '<!--' + fill + s + '--></p>'),
             '<p>' + ('<!-- x -->y' * n) + '<!-- ' + fill + s + ' --></p>', 'comments')


def exprs(S, n, shape):
    """Long expressions, deeply nested brackets, many expressions."""
    s = S.str('s', (0, 1), TXT)
    if shape == 'deep':
        src, want = '${' + '[' * n + "'}'" + ']' * n + '[0]' * n + '}', '}'
    elif shape == 'braces':
        src, want = '${' + "{'k': " * n + "'}'" + '}' * n + "['k']" * n + '}', '}'
    elif shape == 'long':
        src, want = '${' + " + ".join(["'%d}'" % i for i in range(n)]) + '}', ''.join(['%d}' % i for i in range(n)])
    elif shape == 'lines':
        src, want = '${[' + ",\n".join(["'%d}'" % i for i in range(n)]) + '][-1]}', '%d}' % (n - 1)
    elif shape == 'string':
        src, want = "${'" + 'x}{' * n + "'}", 'x}{' * n
    else:
        src, want = '${1}$$$v ${v}' * n, '1$7 7' * n
    S.eq(xt(S, '<p>' + sub(s) + src + sub(s) + '</p>', dict(v=7)), '<p>' + esc_text(s) + want + esc_text(s) + '</p>', 'expressions')
    if shape != 'lines':
        a = s.replace('\n', ' ').replace('\t', ' ')
        S.eq(xt(S, '<p a="' + s.translate({38: '&amp;', 60: '&lt;', 34: '&quot;'}) + src + '"/>', dict(v=7)),
             '<p a="' + esc(a) + want + '"/>', 'expressions in attributes')


# ---------------------------------------------------------------- C07, C08, C09
def control(S, n, shape):
    v = val(S)
    if shape == 'loop':
        k = S.choice('k', [0, 1, n // 2, n - 2, n - 1])
        out = xt(S, '<p><b py:for="i in range(n)" py:if="i != k">$i$v</b></p>', dict(n=n, k=k, v=v))
        S.eq(out, '<p>' + ''.join(['<b>%d' % i + esc(v) + '</b>' for i in range(n) if i != k]) + '</p>', 'many iterations')
    elif shape == 'ifs':
        bad = S.choice('bad', [None, 0, 1, n // 2, n - 1])
        src, want = '$v', esc(v)
        for i in range(n - 1, -1, -1):
            src = '<py:if test="bad != %d">' % i + src + '</py:if><py:else>e%d</py:else>' % i
            if i == bad:
                want = 'e%d' % i
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v, bad=bad)), '<p>' + want + '</p>', 'deep conditions')
    elif shape == 'fors':
        src, want = '$v', esc(v)
        for i in range(n):
            src = '<py:for each="i%d in [0]">' % i + src + '</py:for>'
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v)), '<p>' + want + '</p>', 'deep loops')
    elif shape == 'cases':
        k = S.int('k', -2, n + 2)
        src = ''.join(['<py:case value="%d">c%d$v</py:case>' % (i, i) for i in range(n)])
        want = 'e' + esc(v)
        for i in range(n):
            if S.is_true(k == i):
                want = 'c%d' % i + esc(v)
        S.eq(xt(S, '<p><py:switch test="k">' + src + '<py:else>e$v</py:else></py:switch></p>', dict(v=v, k=k)), '<p>' + want + '</p>', 'many cases')
    elif shape == 'switches':
        k = S.choice('k', [None, 0, n // 2, n - 1])
        src, want = '$v', esc(v)
        for i in range(n - 1, -1, -1):
            src = '<py:switch test="k"><py:case value="%d">c%d</py:case><py:else>' % (i, i) + src + '</py:else></py:switch>'
            if i == k:
                want = 'c%d' % i
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v, k=k)), '<p>' + want + '</p>', 'deep switches')
    else:
        ks = [S.bool('b0')] + [i % 3 == 0 for i in range(1, n)]
        src = ''.join(['<py:if test="ks[%d]">y%d</py:if><py:else>n%d</py:else>' % (i, i, i) for i in range(n)])
        want = ''.join([('y%d' if S.is_true(ks[i]) else 'n%d') % i for i in range(n)])
        S.eq(xt(S, '<p>' + src + '</p>', dict(ks=ks)), '<p>' + want + '</p>', 'many conditions')


def withs(S, n, shape):
    v, w = val(S, 'v'), val(S, 'w')
    if shape == 'deep':
        src = '$x'
        for i in range(n, 0, -1):
            src = '$x<py:with vars="x=\'%d\' + v">' % i + src + '</py:with>$x'
        want = esc(w)
        xs = [esc(w)] + ['%d' % i + esc(v) for i in range(1, n + 1)]
        want = ''.join(xs[:-1]) + xs[-1] + ''.join(xs[-2::-1])
        S.eq(xt(S, '<p><py:with vars="x=w">' + src + '</py:with></p>', dict(v=v, w=w)), '<p>' + want + '</p>', 'deep')
    elif shape == 'vars':
        src = ';'.join(['x%d=%s' % (i, 'v' if i == 0 else "x%d + '.'" % (i - 1)) for i in range(n)])
        S.eq(xt(S, '<p><py:with vars="' + src + '">$x%d</py:with></p>' % (n - 1), dict(v=v)), '<p>' + esc(v) + '.' * (n - 1) + '</p>', 'many variables')
    else:
        src = '<py:with vars="x=w"><py:for each="i in range(n)"><py:with vars="x=v">$x</py:with>$x</py:for></py:with>'
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v, w=w, n=n)), '<p>' + (esc(v) + esc(w)) * n + '</p>', 'repeated')


def elements(S, n, mode):
    """Deep and wide documents keep every tag."""
    v = val(S)
    k = S.choice('k', [0, n // 2, n - 1])
    names = ['p', 'div', 'br', 'b', 'img', 'i']
    src, want = '', ''
    for i in range(n):
        t = names[i % 6]
        if i == k:
            src += '<%s a="$v"/>' % t
            head = '<%s a="' % t + esc(v) + '"'
        else:
            src += '<%s/>' % t
            head = '<' + t
        want += head + ('/>' if mode == 'xml' else '>' if t in ('br', 'img') else '></%s>' % t)
    S.eq(xt(S, '<p>' + '<b>' * n + src + '</b>' * n + '</p>', dict(v=v), mode=mode, is_fragment=True),
         '<p>' + '<b>' * n + want + '</b>' * n + '</p>', 'deep and wide')


# ---------------------------------------------------------------- C10, C11, C12
def functions(S, n, shape):
    v = val(S)
    if shape == 'many':
        k = S.choice('k', [0, n // 2, n - 1])
        src = ''.join(['<py:def function="f%d(x, y=\'%d\')">$x$y</py:def>' % (i, i) for i in range(n)])
        S.eq(xt(S, '<p>' + src + '${f%d(v)}' % k + ''.join(['${f%d(1)}' % i for i in range(n)]) + '</p>', dict(v=v)),
             '<p>' + esc(v) + '%d' % k + ''.join(['1%d' % i for i in range(n)]) + '</p>', 'many functions')
    elif shape == 'params':
        k = S.choice('k', [0, n // 2, n - 1])
        ps = ', '.join(['p%d=%d' % (i, i) for i in range(n)])
        S.eq(xt(S, '<p><py:def function="f(%s)">%s</py:def>${f(p%d=v)}</p>' % (ps, ' '.join(['$p%d' % i for i in range(n)]), k), dict(v=v)),
             '<p>' + ' '.join(['%d' % i if i != k else esc(v) for i in range(n)]) + '</p>', 'many parameters')
    elif shape == 'recurse':
        S.eq(xt(S, '<p><py:def function="f(i)"><py:if test="i">$i<b>${f(i - 1)}</b>$v</py:if></py:def>${f(n)}</p>', dict(v=v, n=n)),
             rec(n, esc(v)), 'deep recursion')
    elif shape == 'nested':
        src = '$a0'
        for i in range(n - 1, -1, -1):
            src = '<py:def function="g%d(a%d)">%s</py:def>${g%d(%s)}' % (i, i, src, i, 'v' if i == 0 else 'a%d' % (i - 1))
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v)), '<p>' + esc(v) + '</p>', 'functions inside functions')
    else:
        S.eq(xt(S, '<p><py:def function="f(c)"><py:for each="i in range(n)">${c(i)}</py:for></py:def>'
                   '<py:call args="i" function="f(%caller)">$i$v;</py:call></p>', dict(v=v, n=n)),
             '<p>' + ''.join(['%d' % i + esc(v) + ';' for i in range(n)]) + '</p>', 'a body shown many times')


def rec(n, e):
    out = ''
    for i in range(1, n + 1):
        out = '%d<b>' % i + out + '</b>' + e if i > 1 else '1<b></b>' + e
    return '<p>' + out + '</p>'


def chain(S, n, shape):
    v = val(S)
    X = S.kajiki.XMLTemplate
    d = {'t0': X('<r>$v<py:def function="f()">f0</py:def>${f()}<py:block name="b">b0</py:block><py:block name="c">c0</py:block></r>')}
    over = S.choice('over', [0, 1, n // 2, n - 1])
    for i in range(1, n):
        d['t%d' % i] = X('<py:extends href="t%d">' % (i - 1)
                         + ('<py:def function="f()">f%d$v</py:def>' % i if i == over else '')
                         + '<py:block name="b">${parent_block()}b%d</py:block>' % i
                         + ('<py:block name="c">c%d$v</py:block>' % i if i == over else '') + '</py:extends>')
    L = S.kajiki.MockLoader(d)
    e = esc(v)
    for top in (n - 1, n // 2, n - 1):
        o = over if over <= top else 0
        S.eq(L.import_('t%d' % top)(dict(v=v)).render(),
             '<r>' + e + 'f%d' % o + (e if o else '') + ''.join(['b%d' % i for i in range(top + 1)]) + 'c%d' % o + (e if o else '') + '</r>', 'long chain')


def blocks(S, n):
    v = val(S)
    X = S.kajiki.XMLTemplate
    k = S.choice('k', [0, n // 2, n - 1])
    L = S.kajiki.MockLoader({
        'a': X('<r>' + ''.join(['<py:block name="k%d">%d$v</py:block>' % (i, i) for i in range(n)]) + '</r>'),
        'b': X('<py:extends href="a">' + ''.join(['<py:block name="k%d">x%d$v</py:block>' % (i, i) for i in range(n) if i % 3 == 0 or i == k])
               + '</py:extends>')})
    S.eq(L.import_('b')(dict(v=v)).render(),
         '<r>' + ''.join([('x%d' if i % 3 == 0 or i == k else '%d') % i + esc(v) for i in range(n)]) + '</r>', 'many blocks')


def compose(S, n, shape):
    v = val(S)
    X = S.kajiki.XMLTemplate
    e = esc(v)
    if shape == 'deep':
        d = dict(('t%d' % i, X('<a>%d<py:include href="t%d"/>$v</a>' % (i, i + 1))) for i in range(n))
        d['t%d' % n] = X('<z>$v</z>')
        want = '<z>' + e + '</z>'
        for i in range(n - 1, -1, -1):
            want = '<a>%d' % i + want + e + '</a>'
    elif shape == 'many':
        d = dict(('p%d' % i, X('<a>%d$v</a>' % i)) for i in range(n))
        d['t0'] = X('<r>' + ''.join(['<py:include href="p%d"/>' % i for i in range(n)]) + '</r>')
        want = '<r>' + ''.join(['<a>%d' % i + e + '</a>' for i in range(n)]) + '</r>'
    elif shape == 'loop':
        d = {'p': X('<a>$v</a>'), 't0': X('<r><py:for each="i in range(%d)"><py:include href="p"/></py:for></r>' % n)}
        want = '<r>' + ('<a>' + e + '</a>') * n + '</r>'
    else:
        d = dict(('p%d' % i, X('<a><py:def function="f(x)">%d$x</py:def></a>' % i)) for i in range(n))
        d['t0'] = X('<r>' + ''.join(['<py:import href="p%d" alias="m%d"/>' % (i, i) for i in range(n)])
                    + ''.join(['${m%d.f(v)}' % i for i in range(n)]) + '</r>')
        want = '<r>' + ''.join(['%d' % i + e for i in range(n)]) + '</r>'
    S.eq(S.kajiki.MockLoader(d).import_('t0')(dict(v=v)).render(), want, 'large composition')


# ---------------------------------------------------------------- C13, C14
def cache(S, n):
    """Many templates in one loader: each is compiled once, and only a changed one again."""
    fs = S.fs()
    v = val(S)
    m = S.int('m', 1, 9)
    k = S.choice('k', [0, 1, n // 2, n - 1])
    for i in range(n):
        fs.write('t%d.xml' % i, '<p>%d$v</p>' % i, m)
    L = S.kajiki.FileLoader(fs.root)
    first = [L.load('t%d.xml' % i) for i in range(n)]
    again = [L.load('t%d.xml' % i) for i in range(n)]
    S.check(all([a is b for a, b in zip(first, again)]), 'compiled again')
    fs.write('t%d.xml' % k, '<q>$v</q>', m + S.int('d', 1, 9))
    third = [L.load('t%d.xml' % i) for i in range(n)]
    S.check(all([a is b for i, (a, b) in enumerate(zip(first, third)) if i != k]), 'compiled again')
    for i in (0, 1, n // 2, n - 1):
        S.eq(third[i](dict(v=v)).render(), '<q>' + esc(v) + '</q>' if i == k else '<p>%d' % i + esc(v) + '</p>', 'text')


def many(S, n, shape):
    v, w = val(S, 'v'), val(S, 'w')
    T = S.kajiki.XMLTemplate('<p><py:def function="f(x)"><b a="$x">$x</b></py:def><py:with vars="y=w">${f(v)}$y</py:with>'
                             '<py:switch test="v"><py:case value="w">same</py:case><py:else>not</py:else></py:switch></p>')

    def want(a, b):
        return '<p><b a="' + esc(a) + '">' + esc(a) + '</b>' + esc(b) + ('same' if S.is_true(a == b) else 'not') + '</p>'
    if shape == 'renders':
        for i in range(n):
            a, b = (v, w) if i % 3 else (w, v)
            S.eq(T(dict(v=a, w=b)).render(), want(a, b), 'render %d' % i)
    else:
        its = [iter(T(dict(v=v, w=w) if i % 2 else dict(v=w, w=v))) for i in range(n)]
        outs = [[] for i in range(n)]
        for step in range(6):
            for o, it in zip(outs, its):
                for x in it:
                    o.append(x)
                    break
        for i, (o, it) in enumerate(zip(outs, its)):
            o.extend(it)
            S.eq(''.join(o), want(v, w) if i % 2 else want(w, v), 'stream %d' % i)


# ---------------------------------------------------------------- C16
def textual(S, n, shape):
    v = val(S)
    s = S.str('s', (0, 2), without(ANY, '$%\\{\r\0'))
    fill = ('lorem & <ipsum> } % {\n' * n)[:n] + '.'
    T = S.kajiki.TextTemplate
    if shape == 'long':
        S.eq(T(fill + '${v}' + s + fill)(dict(v=v)).render(), fill + v + s + fill, 'long text')
    elif shape == 'value':
        S.eq(T('$v|${v}')(dict(v=fill + v)).render(), fill + v + '|' + fill + v, 'long value')
        S.eq(T('$v', autoescape=True)(dict(v=fill + v)).render(), esc(fill + v), 'long value escaped')
    elif shape == 'loop':
        k = S.choice('k', [0, n // 2, n - 1])
        S.eq(T('%for i in range(n)\n%if i != k\n$i$v\n%else\nno\n%end\n%end\nz')(dict(n=n, k=k, v=v)).render(),
             ''.join(['%d' % i + v + '\n' if i != k else 'no\n' for i in range(n)]) + 'z', 'many iterations')
    elif shape == 'ifs':
        bad = S.choice('bad', [None, 0, n // 2, n - 1])
        src, want = '$v', v
        for i in range(n - 1, -1, -1):
            src = '{%%if bad != %d %%}' % i + src + '{%%else%%}e%d{%%end%%}' % i
            if i == bad:
                want = 'e%d' % i
        S.eq(T(src)(dict(v=v, bad=bad)).render(), want, 'deep conditions')
    elif shape == 'cases':
        k = S.int('k', -1, n + 1)
        src = ''.join(['{%%case %d%%}c%d$v' % (i, i) for i in range(n)])
        want = 'e'
        for i in range(n):
            if S.is_true(k == i):
                want = 'c%d' % i + v
        S.eq(T('{%switch k%}' + src + '{%else%}e{%end%}')(dict(v=v, k=k)).render(), want, 'many cases')
    elif shape == 'functions':
        k = S.choice('k', [0, n - 1])
        src = ''.join(['%%def f%d(x)\n%d$x\n%%end\n' % (i, i) for i in range(n)])
        S.eq(T(src + '${f%d(v)}' % k)(dict(v=v)).render(), '%d' % k + v + '\n', 'many functions')
    else:
        S.eq(T('${v}$$' * n + s)(dict(v=v)).render(), (v + '$') * n + s, 'many expressions')


# ---------------------------------------------------------------- C19, C20, C22
def handmade(S, n, shape):
    v = val(S)
    K = S.kajiki

    class Deep(object):
        @K.expose
        def __main__():
            yield 'a'
            yield f(n_)
            yield 'z'

        @K.expose
        def f(i):
            yield v_
            if i:
                yield f(i - 1)
            yield i

    class Wide(object):
        @K.expose
        def __main__():
            for i in range(n_):
                yield f(i)
                yield None
                yield i

        @K.expose
        def f(i):
            yield '<'
            yield v_
    ctx = dict(n_=n, v_=v)
    if shape == 'deep':
        T = K.Template(Deep)
        want = 'a' + v * (n + 1) + ''.join(['%d' % i for i in range(n + 1)]) + 'z'
    else:
        T = K.Template(Wide)
        want = ''.join(['<' + v + '%d' % i for i in range(n)])
    S.eq(T(ctx).render(), want, 'rendered')
    S.eq(''.join(list(T(ctx))), want, 'iterated')


def lazily(S, n):
    """A long sequence is fetched as far as the output is taken."""
    k = S.choice('k', [0, 1, n // 2, n - 1])
    log = []

    def items():
        for i in range(n):
            log.append(i)
            yield i

    class Stop(Exception):
        pass

    def f(i):
        if i == k:
            raise Stop()
        return i
    out = []
    try:
        for x in S.kajiki.XMLTemplate('<p><py:for each="i in items()"><b>${f(i)}</b></py:for></p>')(dict(items=items, f=f)):
            out.append(x)
    except Stop:
        pass
    else:
        S.fail('the exception was lost')
    S.check(log == list(range(k + 1)), 'items fetched', log=log)
    S.eq(''.join(out), '<p>' + ''.join(['<b>%d</b>' % i for i in range(k)]) + '<b>', 'delivered before')


def python(S, n, shape):
    v = val(S)
    if shape == 'lines':
        src = '<?py\n' + '\n'.join(['x%d = %s' % (i, 'v' if i == 0 else 'x%d + "."' % (i - 1)) for i in range(n)]) + '\n?>$x%d' % (n - 1)
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v)), '<p>' + esc(v) + '.' * (n - 1) + '</p>', 'long block')
    elif shape == 'blocks':
        src = ''.join(['<?py x%d = %s?>$x%d ' % (i, 'v' if i == 0 else 'x%d + "."' % (i - 1), i) for i in range(n)])
        S.eq(xt(S, '<p>' + src + '</p>', dict(v=v)), '<p>' + ''.join([esc(v) + '.' * i + ' ' for i in range(n)]) + '</p>', 'many blocks')
    else:
        k = S.choice('k', [0, n // 2, n - 1])
        ctx = dict(('n%d' % i, v) for i in range(n) if i != k)
        src = ''.join(['${1 if defined("n%d") else 0}${value_of("n%d", "-")}' % (i, i) for i in range(n)])
        S.eq(xt(S, '<p>' + src + '</p>', ctx), '<p>' + ''.join(['1' + esc(v) if i != k else '0-' for i in range(n)]) + '</p>', 'many names')


# ---------------------------------------------------------------- C15, C21
def messages(S, n):
    """Many texts, some equal: extracted and looked up alike."""
    import io
    s = S.str('s', (1, 2), LOWER)
    k = S.choice('k', [0, n // 2, n - 1])
    ms = ['m%d' % (i % (n - 3)) if i != k else s for i in range(n)]
    src = '<p>' + '\n'.join(['<b>%s</b>' % m if i != k else '<b>' + m + '</b>' for i, m in enumerate(ms)]) + '</p>'
    asked = []

    def gettext(m):
        asked.append(m)
        return m
    out = S.kajiki.XMLTemplate(src)(dict(gettext=gettext)).render()
    S.eq(out, src, 'text')
    S.eq([a for a in asked if a.strip()], ms, 'looked up')
    got = [(x[0], x[2]) for x in S.kajiki.i18n.extract(io.BytesIO(src.encode('utf-8')), [], None, {})]
    S.eq(got, [(i + 1, m) for i, m in enumerate(ms)], 'extracted')
