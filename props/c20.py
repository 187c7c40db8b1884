"""Evaluation: in document order, exactly when reached, once, and as late as possible."""
from symkj.api import ANY, LOWER, chars
from props.ref import (Text, Expr, El, If, IfElse, For, With, Switch, Strip, Def, FnCall, Root, esc, shown)
from props.large import lazily

BOUNDS = ('all nestings two deep (thorough three deep) of 17 constructs and all sequences of two, every expression traced, with symbolic '
          'conditions, sequences of 0..2 items and switch values; failure at a symbolic evaluation (1..12); the number of chunks taken from a '
          'stream over unlimited sequences 0..12; conversions of values to text counted in 20 places; text templates')
OUTSIDE = ('the order of the attributes of one element; default values of py:def parameters; how the output is cut into chunks beyond that everything '
           'before an expression is delivered before it is evaluated')

KINDS = ['el', 'if', 'ifa', 'ifelse', 'ifelsea', 'ifelseb', 'for', 'fora', 'for2', 'switch', 'switcha', 'switchn', 'with', 'witha', 'strip', 'def', 'defa',
         'content', 'replace', 'attr']


class Stop(Exception):
    pass


class Trace(object):
    """t(k, v) notes k and returns v; fails at its n-th use if told to."""
    def __init__(self, fail=None):
        self.log = []
        self.fail = fail
        self.before = []
        self.out = None

    def __call__(self, k, v=None):
        self.log.append(k)
        if self.out is not None:
            self.before.append(''.join(self.out))
        if self.fail is not None and len(self.log) == self.fail:
            raise Stop(k)
        return v

    def seq(self, k, items):
        for i, x in enumerate(items):
            yield self(k + '.' + str(i), x)
        self(k + '.end')


class Content(El):
    """<tag py:content="expr"/> or py:replace"""
    def __init__(self, how, expr, fn):
        self.how, self.expr, self.fn = how, expr, fn

    def src(self):
        return '<q py:%s="%s"/>' % (self.how, self.expr)

    def run(self, env, cx):
        v = shown(self.fn(env))
        return v if self.how == 'replace' else '<q>' + v + '</q>'


class Attr(El):
    def __init__(self, expr, fn, kids):
        self.expr, self.fn, self.kids = expr, fn, kids

    def src(self):
        return '<q a="${%s}">%s</q>' % (self.expr, self.src_kids())

    def run(self, env, cx):
        v = esc(str(self.fn(env)))
        return '<q a="' + v + '">' + self.run_kids(env, cx) + '</q>'


class Env(object):
    def __init__(self, S):
        self.S = S
        self.ctx = {}

    def get(self, name, make):
        if name not in self.ctx:
            self.ctx[name] = make()
        return name

    def bool(self, name):
        return self.get(name, lambda: self.S.bool(name))

    def word(self, name):
        return self.get(name, lambda: self.S.str(name, (1, 1), chars('abc')))

    def seq(self, name, n=2):
        return self.get(name, lambda: ['i%d' % i for i in range(self.S.choice('len' + name, list(range(n + 1))))])

    def pairs(self, name, n=2):
        return self.get(name, lambda: [('k%d' % i, 'i%d' % i) for i in range(self.S.choice('len' + name, list(range(n + 1))))])


def T(k, name):
    """-> expression text, reference function"""
    return "t('%s', %s)" % (k, name), lambda e: e['t'](k, e[name])


def TS(k, name):
    return "t.seq('%s', %s)" % (k, name), lambda e: e['t'].seq(k, e[name])


def mark(k, name='mk'):
    x, f = T(k, name)
    return Expr(x, f)


def build(E, kind, d, inner):
    D = str(d)
    body = [mark('a' + D)] + inner + [mark('z' + D)]
    if kind == 'el':
        return [El('e' + D, body)]
    if kind in ('if', 'ifa'):
        x, f = T('c' + D, E.bool('c' + D))
        return [If('elem' if kind == 'if' else 'attr', x, body, f)]
    if kind in ('ifelse', 'ifelsea', 'ifelseb'):
        x, f = T('c' + D, E.bool('c' + D))
        return [IfElse('elem' if kind != 'ifelsea' else 'attr', x, body, [mark('o' + D)] + (inner if kind != 'ifelse' else []),
                       'attr' if kind == 'ifelseb' else 'elem', f)]
    if kind in ('for', 'fora'):
        x, f = TS('s' + D, E.seq('s' + D))
        return [For('elem' if kind == 'for' else 'attr', 'x' + D, x, [mark('x' + D, 'x' + D)] + body, f)]
    if kind == 'for2':
        x, f = TS('s' + D, E.pairs('p' + D))
        return [For('elem', 'k%s, x%s' % (D, D), x, [mark('k' + D, 'k' + D), mark('x' + D, 'x' + D)] + body, f)]
    if kind in ('switch', 'switcha', 'switchn'):
        x, f = T('w' + D, E.word('w' + D))
        form = 'elem' if kind != 'switcha' else 'attr'
        E.ctx['A'], E.ctx['B'] = 'a', 'b'
        xa, fa = T('ca' + D, 'A')
        xb, fb = T('cb' + D, 'B')
        return [Switch(x, [(form, xa, fa, body), (form, xb, fb, [mark('b' + D)] + inner)], None if kind == 'switchn' else [mark('e' + D)] + inner,
                       f, space='\n ' if kind == 'switch' else '', oform=form)]
    if kind in ('with', 'witha'):
        x1, f1 = T('u' + D, 'mk')
        x2, f2 = T('v' + D, 'y' + D)
        return [With('elem' if kind == 'with' else 'attr', [('y' + D, x1, f1), ('yy' + D, x2, f2)], [mark('y' + D, 'y' + D)] + body)]
    if kind == 'strip':
        x, f = T('st' + D, E.bool('st' + D))
        return [Strip(x, body, f)]
    if kind in ('def', 'defa'):
        x, f = T('g' + D, 'mk')
        return [Def('f' + D, ['p' + D], [mark('p' + D, 'p' + D)] + body, 'elem' if kind == 'def' else 'attr'), Arg('f' + D, x, f)]
    if kind == 'content':
        x, f = T('ct' + D, 'mk')
        return [El('e' + D, body), Content('content', x, f)]
    if kind == 'replace':
        x, f = T('rp' + D, 'mk')
        return [El('e' + D, body), Content('replace', x, f)]
    if kind == 'attr':
        x, f = T('at' + D, 'mk')
        return [Attr(x, f, body)]
    raise KeyError(kind)


class Arg(FnCall):
    def __init__(self, fname, x, f):
        self.fname, self.x, self.f = fname, x, f

    def src(self):
        return '${%s(%s)}' % (self.fname, self.x)

    def run(self, env, cx):
        return env[self.fname].call(env, cx, [self.f(env)])


def compare(S, root, ctx):
    k, r = Trace(), Trace()
    out = S.kajiki.XMLTemplate(root.src(), is_fragment=True)(dict(ctx, t=k)).render()
    want = root.run(dict(ctx, t=r), {})
    S.check(k.log == r.log, 'evaluations', got=k.log, want=r.log)
    S.eq(out, want, 'output')


def nest(S, outer, inner, deep=None):
    E = Env(S)
    E.ctx['mk'] = '.'
    leaf = [mark('l')]
    if deep:
        leaf = build(E, S.choice('deep', deep), 3, leaf)
    tree = build(E, outer, 1, build(E, inner, 2, leaf))
    compare(S, Root([mark('A')] + tree + [mark('Z')]), E.ctx)


def seqs(S, a, b):
    E = Env(S)
    E.ctx['mk'] = '.'
    compare(S, Root(build(E, a, 1, [mark('l')]) + [mark('m')] + build(E, b, 2, [mark('n')]) + [mark('Z')]), E.ctx)


def failing(S, outer, inner, n):
    """If an evaluation fails, exactly what precedes it has been delivered and evaluated."""
    E = Env(S)
    E.ctx['mk'] = '.'
    root = Root([mark('A')] + build(E, outer, 1, build(E, inner, 2, [mark('l')])) + [mark('Z')])
    full = Trace()
    whole = root.run(dict(E.ctx, t=full), {})
    total = len(full.log)
    at = S.int('at', 1, n)
    S.assume(at <= total)
    k = Trace(at)
    got = []
    try:
        for chunk in S.kajiki.XMLTemplate(root.src(), is_fragment=True)(dict(E.ctx, t=k)):
            got.append(chunk)
        S.fail('the failure disappeared')
    except Stop:
        pass
    S.check(k.log == full.log[:len(k.log)], 'evaluations before the failure', got=k.log)
    S.check(len(k.log) == at, 'nothing after the failure')
    got = ''.join(got)
    S.check(whole.startswith(got), 'what was delivered', got=got, whole=whole)
    # every earlier ${...} in element content has been delivered already
    dots = len([x for x in k.log[:-1] if x[0] in 'azlAZobem' and x[-1:] in 'azlAZobem12' and not x.startswith('at') and x[0] != 'c'])
    S.check(got.count('.') >= dots, 'delivered before the next evaluation', got=got, log=k.log)


def stream(S, form, n):
    """Sequences are consumed item by item, as the output is taken."""
    took = S.int('took', 0, n)
    src = {'elem': '<py:for each="x in s">$x,</py:for>', 'attr': '<b py:for="x in s">$x</b>', 'nested': '<b py:for="x in s"><py:for each="y in (1, 2)">$x$y</py:for></b>',
           'def': '<py:def function="f(q)"><b py:for="x in q">$x</b></py:def>${f(s)}', 'block': '<py:block name="k"><b py:for="x in s">$x</b></py:block>',
           'call': '<py:def function="f(c)">${c()}</py:def><py:call function="f(%caller)"><b py:for="x in s">$x</b></py:call>',
           'with': '<py:with vars="q=s"><b py:for="x in q">$x</b></py:with>', 'if': '<py:if test="s"><b py:for="x in s">$x</b></py:if>',
           'case': '<py:switch test="1"><py:case value="1"><b py:for="x in s">$x</b></py:case></py:switch>',
           'strip': '<b py:strip="" py:for="x in s">$x</b>', 'content': '<b py:for="x in s" py:content="x"/>',
           'attrs': '<b py:for="x in s" a="$x"/>', 'replace': '<b py:for="x in s" py:replace="x"/>'}[form]
    drawn = [0]
    got = []

    def numbers():
        while True:
            drawn[0] += 1
            have = ''.join(got)
            S.check(have.count('#') >= drawn[0] - 1, 'item %d fetched before the output of the one before was taken' % drawn[0], have=have)
            yield '#'
    it = iter(S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(s=numbers())))
    i = 0
    while i < took:
        got.append(next(it))
        i += 1
    S.check(drawn[0] <= took + 1, 'items fetched ahead', drawn=drawn[0])
    S.check(''.join(got).startswith('<p>'[:len(''.join(got))]), 'begins with the beginning')


def untaken(S, what):
    """Nothing at all happens until output is asked for."""
    t = Trace()
    tpl = S.kajiki.XMLTemplate('<p py:with="a=t(1, 2)"><?py t(3)?>${t(4)}</p>')
    S.check(t.log == [], 'compiling evaluates nothing')
    x = tpl(dict(t=t))
    S.check(t.log == [], 'giving the context evaluates nothing')
    it = iter(x)
    S.check(t.log == [], 'asking for the stream evaluates nothing')
    n = S.int('n', 0, 2)
    i = 0
    while i < n:
        ''.join(x) if what == 'join' else x.render() if what == 'render' else list(x)
        i += 1
    S.check(t.log == [1, 3, 4] * i, 'once per rendering', got=t.log)


class Val(object):
    def __init__(self, s):
        self.s = s
        self.n = 0

    def __str__(self):
        self.n += 1
        return self.s


class Html(object):
    def __init__(self, s):
        self.s = s
        self.n = 0

    def __html__(self):
        self.n += 1
        return self.s

    def __str__(self):
        raise Stop('str')


PLACES = {
    'expr': ('${v}', '%s'), 'named': ('$v', '%s'), 'content': ('<b py:content="v"/>', '<b>%s</b>'), 'replace': ('<b py:replace="v"/>', '%s'),
    'attr': ('<b a="$v"/>', '<b a="%s"/>'), 'attrtext': ('<b a="x${v}y"/>', '<b a="x%sy"/>'), 'attrs': ('<b py:attrs="{\'a\': v}"/>', '<b a="%s"/>'),
    'attrslist': ('<b py:attrs="[(\'a\', v)]"/>', '<b a="%s"/>'), 'with': ('<py:with vars="w=v">$w</py:with>', '%s'),
    'arg': ('<py:def function="f(x)">$x</py:def>${f(v)}', '%s'), 'for': ('<py:for each="x in [v]">$x</py:for>', '%s'),
    'script': ('<script>$v</script>', '<script>/*<![CDATA[*/%s/*]]>*/</script>'), 'strip': ('<b py:strip="">$v</b>', '%s'),
    'call': ('<py:def function="f(c)">${c(v)}</py:def><py:call args="x" function="f(%caller)">$x</py:call>', '%s'),
    'block': ('<py:block name="k">$v</py:block>', '%s'), 'nofor': ('<py:for each="x in [v]"/>', ''), 'noif': ('<py:if test="v is None">$v</py:if>', ''),
    'nowith': ('<py:with vars="w=v"/>', ''), 'noarg': ('<py:def function="f(x)">.</py:def>${f(v)}', '.'),
    'attrfn': ('<py:def function="f()">$v</py:def><b a="${f()}"/>', None),
}


def text(S, place, kind, n):
    """A value is asked for its text once, where it is shown, and never otherwise."""
    s = S.str('s', (0, n), ANY if kind == 'str' else LOWER)
    src, want = PLACES[place]
    v = Val(s) if kind == 'str' else Html(s)
    if want is None:
        S.assume(s == s.translate({38: None, 60: None, 62: None, 34: None}))
        want = '<b a="%s"/>'
    if kind == 'html' and place in ('attr', 'attrtext'):
        raise KeyError('attributes show the text')
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(v=v)).render()
    e = esc(s) if kind == 'str' else s
    a = want.split('%s')
    S.eq(out, '<p>' + (a[0] + e + a[1] if len(a) > 1 else want) + '</p>', 'output')
    S.eq(v.n, len(a) - 1, 'number of conversions')


PAGES = {
    'include': ({'m': '<x>${t(1)}<py:include href="p"/>${t(3)}</x>', 'p': '<y>${t(2)}</y>'}, [1, 2, 3]),
    'include2': ({'m': '<x>${t(1)}<py:include href="p"/><py:include href="p"/>${t(3)}</x>', 'p': '<y>${t(2)}</y>'}, [1, 2, 2, 3]),
    'import': ({'m': '<x><py:import href="p" alias="q"/>${t(1)}${q.f(t(2))}${t(4)}</x>', 'p': '<y>${t(9)}<py:def function="f(a)">${t(3)}</py:def></y>'}, [1, 2, 3, 4]),
    'block': ({'p': '<x>${t(1)}<py:block name="k">${t(9)}</py:block>${t(3)}</x>', 'm': '<py:extends href="p"><py:block name="k">${t(2)}</py:block></py:extends>'}, [1, 2, 3]),
    'super': ({'p': '<x>${t(1)}<py:block name="k">${t(3)}</py:block>${t(5)}</x>',
               'm': '<py:extends href="p"><py:block name="k">${t(2)}${parent_block()}${t(4)}</py:block></py:extends>'}, [1, 2, 3, 4, 5]),
    'def': ({'p': '<x>${t(1)}${f()}${t(3)}<py:def function="f()">${t(9)}</py:def></x>', 'm': '<py:extends href="p"><py:def function="f()">${t(2)}</py:def></py:extends>'},
            [1, 2, 3]),
    'python': ({'m': '<x>${t(1)}<?py t(2)?>${t(3)}<b py:if="t(4)"/><?py\nt(5)\nt(6)\n?>${t(7)}</x>'}, [1, 2, 3, 4, 5, 6, 7]),
    'callargs': ({'m': '<x><py:def function="f(c, a, b)">${t(3)}${c()}${t(5)}</py:def><py:call function="f(%caller, t(1), t(2))">${t(4)}</py:call></x>'}, [1, 2, 3, 4, 5]),
    'attrs': ({'m': '<x>${t(1)}<b a="${t(2)}${t(3)}" py:attrs="{\'c\': t(4)}">${t(5)}</b>${t(6)}</x>'}, [1, 2, 3, 4, 5, 6]),
    'fourth': ({'m': '<b py:with="a=t(3)" py:for="i in t(1, (1,))" py:if="t(2, 1)" py:content="t(4)"/>'}, [1, 2, 3, 4]),
    'inner': ({'m': '<x><py:def function="f()">${t(1)}<py:def function="g()">${t(3)}</py:def>${t(2)}${g()}</py:def>${f()}</x>'}, [1, 2, 3]),
    'unused': ({'m': '<x><py:def function="f(c)">${t(1)}</py:def><py:call function="f(%caller)">${t(9)}</py:call>${t(2)}</x>'}, [1, 2]),
    'casestop': ({'m': '<x><py:switch test="t(1, 1)"><py:case value="t(2, 2)">${t(9)}</py:case><py:case value="t(3, 1)">${t(4)}</py:case>'
                       '<py:case value="t(9, 1)">${t(9)}</py:case><py:else>${t(9)}</py:else></py:switch></x>'}, [1, 2, 3, 4]),
    'withfor': ({'m': '<x><py:for each="i in (1, 2)"><py:with vars="a=t(i); b=t(i + 10)">$a</py:with></py:for></x>'}, [1, 11, 2, 12]),
}


def pages(S, page):
    t = Trace()
    tpls, want = PAGES[page]
    K = S.kajiki
    n = S.int('n', 1, 2)
    loader = K.MockLoader(dict((k, K.XMLTemplate(v)) for k, v in tpls.items()))
    i = 0
    while i < n:
        loader.import_('m')(dict(t=t)).render()
        i += 1
    S.check(t.log == want * i, 'evaluations', got=t.log)


TEXTS = {
    'expr': ('$a${t(1)} ${t(2)}\n$$${t(3)}', [1, 2, 3]), 'if': ('%if t(1, c)\n${t(2)}\n%else\n${t(3)}\n%end\n${t(4)}', None),
    'for': ('%for i in t(1, (1, 2))\n${t(i + 1)}\n%end\n${t(4)}', [1, 2, 3, 4]), 'def': ('%def f(a)\n${t(2)}$a\n%end\n${f(t(1))}${t(3)}', [1, 2, 3]),
    'switch': ('%switch t(1, 2)\n%case t(2, 1)\n${t(9)}\n%case t(3, 2)\n${t(4)}\n%case t(9, 2)\n%else\n${t(9)}\n%end\n', [1, 2, 3, 4]),
    'py': ('${t(1)}{%py t(2)%}${t(3)}', [1, 2, 3]), 'call': ('%def f(c)\n${t(1)}${c()}${t(3)}\n%end\n%call() f(%caller)\n${t(2)}\n%end\n${t(4)}', [1, 2, 3, 4]),
}


def texts(S, shape):
    src, want = TEXTS[shape]
    c = S.bool('c')
    if want is None:
        want = [1, 2 if c else 3, 4]
    t = Trace()
    S.kajiki.TextTemplate(src)(dict(t=t, c=c, a='')).render()
    S.check(t.log == want, 'evaluations', got=t.log)


def plan(tier):
    big = tier != 'quick'
    P = [('nest', dict(outer=o, inner=i)) for o in KINDS for i in KINDS]
    if big:
        P += [('nest', dict(outer=o, inner=i, deep=KINDS)) for o in KINDS for i in KINDS]
    P += [('seqs', dict(a=a, b=b)) for a in KINDS for b in (KINDS if big else ('if', 'ifelse', 'for', 'switch', 'with', 'strip', 'attr'))]
    P += [('failing', dict(outer=o, inner=i, n=12)) for o in KINDS for i in (KINDS if big else ('el', 'ifelse', 'fora', 'strip', 'switch', 'defa', 'attr'))]
    P += [('stream', dict(form=f, n=20 if big else 12)) for f in ('elem', 'attr', 'nested', 'def', 'block', 'call', 'with', 'if', 'case', 'strip', 'content', 'attrs', 'replace')]
    P += [('untaken', dict(what=w)) for w in ('join', 'render', 'list')]
    for p in sorted(PLACES):
        for k in ('str', 'html'):
            if k == 'html' and p in ('attr', 'attrtext', 'attrfn'):
                continue
            P.append(('text', dict(place=p, kind=k, n=3 if big else 2)))
    P += [('pages', dict(page=p)) for p in sorted(PAGES)]
    P += [('texts', dict(shape=s)) for s in sorted(TEXTS)]
    P += [('lazily', dict(n=130))]
    return P
