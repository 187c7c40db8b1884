"""Control flow: if/else, for, switch/case, strip, nested arbitrarily."""
import itertools

from symkj.api import ANY, LOWER, chars
from props.ref import (Text, Expr, El, If, IfElse, For, With, Switch, Strip, Def, FnCall, Root,
                       esc, shown, Node, empty as empty_)
from props.large import control

BOUNDS = ('all nestings two deep (thorough three deep) of 17 constructs in attribute and element form, '
          'each with symbolic conditions, sequences of 0..2 symbolic items and symbolic switch values; '
          'truth values of 11 kinds and of objects with their own; 15 kinds of iterables with 13 kinds of loop targets; switch on symbolic integers -3..6 and one-character strings; '
          'evaluation counts of every tested expression; directives inside functions called from directive expressions; 3 output modes')
OUTSIDE = ('sequences longer than two items in nestings (0..5 in the flat scenarios); Python statements with break/continue')

KINDS = ['el', 'if', 'ifa', 'ifelse', 'ifelsea', 'ifelseb', 'for', 'fora', 'for2', 'switch', 'switcha',
         'switchn', 'with', 'witha', 'strip', 'def', 'defa']


class Env(object):
    """Draws the symbolic context as constructs need it."""
    def __init__(self, S):
        self.S = S
        self.ctx = {}

    def bool(self, name):
        if name not in self.ctx:
            self.ctx[name] = self.S.bool(name)
        return name

    def seq(self, name, n=2):
        if name not in self.ctx:
            k = self.S.choice('len' + name, list(range(n + 1)))
            self.ctx[name] = [self.S.str('%s%d' % (name, i), (1, 1), LOWER) for i in range(k)]
        return name

    def pairs(self, name, n=2):
        if name not in self.ctx:
            k = self.S.choice('len' + name, list(range(n + 1)))
            self.ctx[name] = [(self.S.str('%sk%d' % (name, i), (1, 1), LOWER),
                               self.S.str('%sv%d' % (name, i), (1, 1), LOWER)) for i in range(k)]
        return name

    def word(self, name):
        if name not in self.ctx:
            self.ctx[name] = self.S.str(name, (1, 1), LOWER)
        return name


def build(E, kind, d, inner):
    """One construct whose body is text around ``inner``."""
    t = Text('t%d' % d)
    body = [Text('(')] + inner + [Text(')')]
    if kind == 'el':
        return [El('e%d' % d, body)]
    if kind in ('if', 'ifa'):
        return [If('elem' if kind == 'if' else 'attr', E.bool('c%d' % d), body)]
    if kind in ('ifelse', 'ifelsea', 'ifelseb'):
        other = [Text('else%d' % d)] + (inner if kind != 'ifelse' else [])
        return [IfElse('elem' if kind != 'ifelsea' else 'attr', E.bool('c%d' % d), body, other,
                       'attr' if kind == 'ifelseb' else 'elem')]
    if kind in ('for', 'fora'):
        return [For('elem' if kind == 'for' else 'attr', 'x%d' % d, E.seq('s%d' % d),
                    [Expr('x%d' % d)] + body)]
    if kind == 'for2':
        return [For('elem', 'k%d, x%d' % (d, d), E.pairs('p%d' % d),
                    [Expr('k%d' % d), Expr('x%d' % d)] + body)]
    if kind in ('switch', 'switcha', 'switchn'):
        w = E.word('w%d' % d)
        f = 'elem' if kind != 'switcha' else 'attr'
        cases = [(f, "'a'", lambda e: 'a', body), (f, "'b'", lambda e: 'b', [Text('B')] + inner)]
        return [Switch(w, cases, None if kind == 'switchn' else [Text('E')] + inner,
                       space='\n ' if kind == 'switch' else '', oform=f)]
    if kind in ('with', 'witha'):
        w = E.word('u%d' % d)
        y = 'y%d' % d
        return [With('elem' if kind == 'with' else 'attr', [(y, w, lambda e, w=w: e[w])],
                     [Expr(y)] + body + [Expr(y)])]
    if kind == 'strip':
        return [Strip(E.bool('z%d' % d), body)]
    if kind in ('def', 'defa'):
        f = 'f%d' % d
        w = E.word('q%d' % d)
        return [Def(f, ['a%d' % d], [Expr('a%d' % d)] + body, 'elem' if kind == 'def' else 'attr'),
                FnCall(f, [w])]
    raise KeyError(kind)


def render(S, root, ctx, **kw):
    return S.kajiki.XMLTemplate(root.src(), is_fragment=True, **kw)(ctx).render()


def nest(S, outer, inner, deep=None, mode='xml'):
    E = Env(S)
    leaf = [Text('x')]
    if deep:
        leaf = build(E, S.choice('deep', deep), 3, leaf)
    tree = build(E, inner, 2, leaf)
    tree = build(E, outer, 1, tree)
    root = Root([Text('<')] + tree + [Text('>')])
    # names of template functions defined inside py:def bodies are local to them
    out = render(S, root, dict(E.ctx), mode=mode)
    S.eq(out, root.run(dict(E.ctx), {'mode': mode}), 'control flow')


def seqs(S, a, b):
    """Constructs one after the other do not influence each other."""
    E = Env(S)
    tree = build(E, a, 1, [Text('x')]) + build(E, b, 2, [Text('y')]) + [Text('.')]
    root = Root(tree)
    out = render(S, root, dict(E.ctx))
    S.eq(out, root.run(dict(E.ctx), {}), 'sequence of constructs')


def adjacent(S, mode, k):
    """Elements with and without py:strip next to each other: each follows its own condition."""
    src, want = '', ''
    ctx = {}
    for i in range(k):
        how = S.choice('how%d' % i, ['none', '', 'a', 'b', 'not a'])
        full = S.choice('full%d' % i, [False, True])
        if how in ('a', 'b', 'not a') and how[-1] not in ctx:
            ctx[how[-1]] = S.bool(how[-1])
        off = how == '' or (how in ('a', 'b') and S.is_true(ctx[how])) or (how == 'not a' and not S.is_true(ctx['a']))
        t = 'e%d' % i
        s = '' if how == 'none' else ' py:strip="%s"' % how
        src += '<%s%s>x</%s>' % (t, s, t) if full else '<%s%s/>' % (t, s)
        tag = '<%s>x</%s>' % (t, t) if full else empty_(t, '', {'mode': mode})
        want += ('x' if full else '') if off else tag
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>', mode=mode, is_fragment=True)(ctx).render()
    S.eq(out, '<p>' + want + '</p>', 'adjacent elements')


def truth(S, form):
    """py:if, py:strip and py:else follow Python's truth value."""
    k = S.choice('k', ['str', 'int', 'bool', 'none', 'list0', 'list1', 'dict0', 'dict1', 'float', 'obj',
                       'tuple'])
    v = {'none': None, 'list0': [], 'list1': [0], 'dict0': {}, 'dict1': {0: 0}, 'float': 0.0,
         'obj': object(), 'tuple': ()}.get(k)
    if k == 'str':
        v = S.str('v', (0, 1), ANY)
    elif k == 'int':
        v = S.int('v', -2, 2)
    elif k == 'bool':
        v = S.bool('v')
    t = S.is_true(v)
    src, yes, no = {
        'if': ('<py:if test="v">y</py:if>', 'y', ''),
        'ifnot': ('<py:if test="not v">y</py:if>', '', 'y'),
        'ifa': ('<b py:if="v">y</b>', '<b>y</b>', ''),
        'else': ('<py:if test="v">y</py:if><py:else>n</py:else>', 'y', 'n'),
        'elsea': ('<b py:if="v">y</b><i py:else="">n</i>', '<b>y</b>', '<i>n</i>'),
        'strip': ('<b py:strip="v">y</b>', 'y', '<b>y</b>'),
        'stripa': ('<b py:strip="v" a="1">y</b>', 'y', '<b a="1">y</b>'),
        'stripe': ('<b py:strip="v"/>', '', '<b/>'),
        'stripor': ('<b py:strip="v or False">y</b>', 'y', '<b>y</b>'),
        'stripc': ('<b py:strip="v" py:content="1"/>', '1', '<b>1</b>'),
    }[form]
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(v=v)).render()
    S.eq(out, '<p>' + (yes if t else no) + '</p>', 'truth value')


class Indexed(object):
    """Iterable the old way."""
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class Seq(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Falsy(Seq):
    def __bool__(self):
        return False


class Zero(Seq):
    def __len__(self):
        return 0


class Own(list):
    def __iter__(self):
        for i in range(len(self)):
            yield list.__getitem__(self, i)


def gen(items):
    for i in items:
        yield i


ITERABLES = {'list': list, 'tuple': tuple, 'dict': lambda x: dict((k, 1) for k in x), 'gen': gen, 'iter': iter, 'indexed': Indexed, 'seq': Seq, 'falsy': Falsy,
             'zero': Zero, 'own': Own, 'map': lambda x: map(lambda y: y, x), 'keys': lambda x: dict((k, 1) for k in x).keys(), 'reversed': lambda x: reversed(x[::-1]),
             'filter': lambda x: filter(lambda y: True, x), 'chain': lambda x: itertools.chain(x[:1], x[1:])}
TARGETS = {'x': ('x in v', '$x', 1), 'paren': ('(x) in v', '$x', 1), 'tuple': ('x, in [(y,) for y in v]', '$x', 1), 'enum': ('i, x in enumerate(v)', '$x', 1),
           'pair': ('x, y in zip(v, "abc")', '$x', 1), 'nested': ('(i, (x, y)) in enumerate([(z, 1) for z in v])', '$x', 1), 'star': ('x, *y in [(z, 1, 2) for z in v]', '$x', 1),
           'comp': ('x in [y for y in v]', '$x', 1), 'cond': ('x in (v if True else None)', '$x', 1), 'item': ('d["k"] in v', '${d["k"]}', 1), 'attr': ('o.k in v', '$o.k', 1),
           'two': ('x in list(v) + ["!"]', '$x', 2), 'bare': ('x in v, w', '${"".join(x)}', 3)}


class Blank(object):
    pass


def iterables(S, kind):
    """py:for goes through anything Python's for goes through, with any target."""
    t = S.choice('target', sorted(TARGETS))
    items = [S.str('a%d' % i, (1, 1), LOWER) for i in range(S.choice('len', [0, 1, 2]))]
    if kind in ('dict', 'keys') and len(items) == 2:
        S.assume(items[0] != items[1])
    each, show, how = TARGETS[t]
    form = S.choice('form', ['<py:for each="%s">[%s]</py:for>', '<i py:for="%s">[%s]</i>'])
    src = form % (each.replace('"', '&quot;'), show)
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(v=ITERABLES[kind](items), w=['?'], d={}, o=Blank())).render()
    shown = [''.join(items), '?'] if how == 3 else items + ['!'] if how == 2 else items
    tag = ('<i>[%s]</i>' if '<i' in form else '[%s]').split('%s')
    S.eq(out, '<p>' + ''.join([tag[0] + x + tag[1] for x in shown]) + '</p>', 'py:for over ' + kind)


def uniterable(S):
    """What cannot be gone through is an error, not nothing."""
    v = S.choice('v', [None, 0, 1, False, True, 1.5, Ellipsis, len])
    T = S.kajiki.XMLTemplate(S.choice('form', ['<p><py:for each="x in v">$x</py:for></p>', '<p><i py:for="x in v">$x</i></p>', '<p><py:for each="x, y in v">$x</py:for></p>']))
    try:
        out = T(dict(v=v)).render()
    except TypeError:
        return
    S.fail('rendered', out=out)


def custom(S, form):
    """Truth values of objects: __bool__ if there is one, else __len__, asked once."""
    b = S.is_true(S.bool('b'))
    n = S.choice('n', [0, 1, 2])
    asked = []
    how = S.choice('how', ['bool', 'len', 'both', 'eq', 'list'])

    def bool_(self):
        asked.append(1)
        return b

    def len_(self):
        asked.append(1)
        return n
    d = {'bool': dict(__bool__=bool_), 'len': dict(__len__=len_), 'both': dict(__bool__=bool_, __len__=len_), 'eq': dict(__bool__=bool_, __eq__=lambda s, o: True, __hash__=None),
         'list': dict(__bool__=bool_)}[how]
    v = type('V', (list if how == 'list' else object,), d)()
    src, yes, no = {
        'if': ('<py:if test="v">y</py:if>', 'y', ''),
        'ifa': ('<b py:if="v">y</b>', '<b>y</b>', ''),
        'else': ('<py:if test="v">y</py:if><py:else>n</py:else>', 'y', 'n'),
        'elsea': ('<b py:if="v">y</b><i py:else="">n</i>', '<b>y</b>', '<i>n</i>'),
        'strip': ('<b py:strip="v" a="${1}">y</b>', 'y', '<b a="1">y</b>'),
        'stripe': ('<b py:strip="v"/>', '', '<b/>'),
    }[form]
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(v=v)).render()
    t = n > 0 if how == 'len' else b
    S.eq(out, '<p>' + (yes if t else no) + '</p>', 'truth value of an object')
    S.eq(len(asked), 1, 'asked once')


def switch_int(S, shape):
    """The first case equal to the value is rendered, and only it; else only when none is."""
    v = S.int('v', -3, 6)
    a = S.int('a', -3, 6)
    b = S.int('b', -3, 6)
    T = {
        'elem': '<py:switch test="v"><py:case value="a">A</py:case><py:case value="b">B</py:case>'
                '<py:else>E</py:else></py:switch>',
        'noelse': '<py:switch test="v"> <py:case value="a">A</py:case>\n<py:case value="b">B</py:case>\n'
                  '</py:switch>',
        'attr': '<py:switch test="v"><i py:case="a">A</i><b py:case="b">B</b><u py:else="">E</u></py:switch>',
        'expr': '<py:switch test="v + 1"><py:case value="a + 1">A</py:case>'
                '<py:case value="b + 1">B</py:case><py:else>E</py:else></py:switch>',
        'nested': '<py:switch test="v"><py:case value="a"><py:switch test="b"><py:case value="a">A</py:case>'
                  '<py:else>N</py:else></py:switch></py:case><py:case value="b">B</py:case>'
                  '<py:else>E</py:else></py:switch>',
        'loop': '<py:for each="x in (a, b)"><py:switch test="v"><py:case value="x">A</py:case>'
                '<py:else>E</py:else></py:switch></py:for>',
        'after': '<py:switch test="a"><py:case value="b">A</py:case></py:switch><py:switch test="v">'
                 '<py:case value="b">B</py:case><py:else>E</py:else></py:switch>',
        'infunc': '<py:def function="f(x)"><py:switch test="x"><py:case value="b">B</py:case><py:else>E</py:else>'
                  '</py:switch></py:def><py:switch test="v"><py:case value="a">${f(a)}A</py:case>'
                  '<py:case value="b">${f(b)}</py:case></py:switch>',
    }[shape]
    if shape == 'attr':
        m = ('<i>A</i>', '<b>B</b>', '<u>E</u>')
    else:
        m = ('A', 'B', 'E')
    out = S.kajiki.XMLTemplate('<p>' + T + '</p>')(dict(v=v, a=a, b=b)).render()
    va, vb, ab = S.is_true(v == a), S.is_true(v == b), S.is_true(a == b)
    if shape == 'nested':
        w = ('A' if ab else 'N') if va else 'B' if vb else 'E'
    elif shape == 'loop':
        w = ('A' if va else 'E') + ('A' if vb else 'E')
    elif shape == 'after':
        w = ('A' if ab else '') + ('B' if vb else 'E')
    elif shape == 'infunc':
        w = (('B' if ab else 'E') + 'A') if va else 'B' if vb else ''
    elif shape == 'noelse':
        w = m[0] if va else m[1] if vb else ''
    else:
        w = m[0] if va else m[1] if vb else m[2]
    S.eq(out, '<p>' + w + '</p>', 'switch')


INEXPR = {
    'case': '<py:switch test="str(v)"><py:case value="F(a)">A</py:case><py:case value="F(b)">B</py:case><py:case value="str(a)">C</py:case><py:else>E</py:else></py:switch>',
    'test': '<py:switch test="F(v)"><py:case value="F(a)">A</py:case><py:case value="str(b)">B</py:case><py:else>E</py:else></py:switch>',
    'if': '<py:if test="F(v) == F(a)">A</py:if><py:else>B</py:else>', 'for': '<py:for each="c in F(v) + F(a)">[$c]</py:for>',
    'with': '<py:with vars="w=F(v); z=F(a)"><py:with vars="w=F(b)">$w$z</py:with>$w$z</py:with>', 'strip': '<b py:strip="F(v) == F(a)">x</b>',
    'attr': '<py:switch test="str(v)"><py:case value="str(a)"><b a="${F(a)}" c="${F(b)}"/></py:case><py:case value="str(b)">B</py:case></py:switch>',
    'arg': '<py:def function="g(s)"><py:switch test="s"><py:case value="F(a)">$s</py:case><py:case value="F(b)">B</py:case></py:switch></py:def>${g(F(v))}',
    'loop': '<py:for each="i in (a, b)"><py:switch test="F(i)"><py:case value="F(v)">A</py:case><py:case value="str(v)">B</py:case></py:switch></py:for>',
}
BODY = {
    'switch': '<py:switch test="x"><py:case value="1">1</py:case><py:else>2</py:else></py:switch>',
    'with': '<py:with vars="w=x; q=w"><py:with vars="w=7">$q</py:with></py:with>',
    'deep': '<py:switch test="x"><py:case value="1"><py:with vars="w=x"><py:switch test="w + 1"><py:case value="2">1</py:case></py:switch></py:with></py:case><py:else>2</py:else></py:switch>',
    'call': '<py:def function="h(c)"><py:switch test="x"><py:case value="1">${c(1)}</py:case><py:else>${c(2)}</py:else></py:switch></py:def>'
            '<py:call args="k" function="h(%caller)"><py:switch test="k"><py:case value="k">$k</py:case></py:switch></py:call>',
}


def inexpr(S, place, body):
    """Functions with directives of their own, used in the expressions of directives."""
    v, a, b = [S.int(k, 0, 3) for k in 'vab']

    def f(x):
        return str(x) if body == 'with' else '1' if x == 1 else '2'
    fv, fa, fb = f(v), f(a), f(b)
    sv = str(v)
    if place == 'case':
        want = 'A' if sv == fa else 'B' if sv == fb else 'C' if v == a else 'E'
    elif place == 'test':
        want = 'A' if fv == fa else 'B' if fv == str(b) else 'E'
    elif place == 'if':
        want = 'A' if fv == fa else 'B'
    elif place == 'for':
        want = '[' + fv + '][' + fa + ']'
    elif place == 'with':
        want = fb + fa + fv + fa
    elif place == 'strip':
        want = 'x' if fv == fa else '<b>x</b>'
    elif place == 'attr':
        want = '<b a="' + fa + '" c="' + fb + '"/>' if v == a else 'B' if v == b else ''
    elif place == 'arg':
        want = fv if fv == fa else 'B' if fv == fb else ''
    else:
        want = ''.join(['A' if f(i) == fv else 'B' if f(i) == sv else '' for i in (a, b)])
    src = '<p><py:def function="f(x)">' + BODY[body] + '</py:def>' + INEXPR[place].replace('F(', 'show(f, ') + '</p>'
    out = S.kajiki.XMLTemplate(src)(dict(v=v, a=a, b=b, show=lambda f, x: ''.join([str(c) for c in f(x)]))).render()
    S.eq(out, '<p>' + want + '</p>', 'functions inside the expressions of directives')


def switch_kind(S):
    """Cases compare with ==, whatever the types."""
    vals = [None, 0, 1, '', 'a', False, True, (), 2.0, '1']
    v = S.choice('v', vals)
    a = S.choice('a', vals)
    out = S.kajiki.XMLTemplate('<p><py:switch test="v"><py:case value="a">A</py:case><py:else>E</py:else>'
                               '</py:switch></p>')(dict(v=v, a=a)).render()
    S.eq(out, '<p>' + ('A' if a == v else 'E') + '</p>', 'switch compares with ==')


def loop(S, form, n):
    """Every item once, in order."""
    k = S.choice('len', list(range(n + 1)))
    kind = S.choice('kind', ['list', 'tuple', 'iter', 'gen', 'dict', 'str'])
    items = [S.str('x%d' % i, (1, 1), ANY) for i in range(k)]
    if kind == 'dict':
        items = ['k%d' % i for i in range(k)]
        seq = dict((x, 1) for x in items)
    elif kind == 'str':
        items = list('abcdef'[:k])
        seq = 'abcdef'[:k]
    else:
        seq = {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda l: (x for x in l)}[kind](items)
    src, a, b = {
        'elem': ('<py:for each="x in s">$x,</py:for>', '', ','),
        'attr': ('<b py:for="x in s">$x</b>', '<b>', '</b>'),
        'attr2': ('<b py:for="x in s" c="1" py:content="x"/>', '<b c="1">', '</b>'),
        'replace': ('<b py:for="x in s" py:replace="x"/>', '', ''),
        'enum': ('<py:for each="i, x in enumerate(s)">$x;</py:for>', '', ';'),
    }[form]
    out = S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(s=seq)).render()
    want = '<p>'
    for x in items:
        want = want + a + esc(x) + b
    S.eq(out, want + '</p>', 'loop')


class Tick(object):
    def __init__(self, v):
        self.n = 0
        self.v = v

    def __call__(self):
        self.n += 1
        return self.v


def once(S, shape):
    """Each tested expression is evaluated exactly once per evaluation of its construct."""
    v = S.choice('v', [0, 1])
    src, want = {
        'if': ('<py:if test="t()">y</py:if>', 1), 'ifa': ('<b py:if="t()">y</b>', 1),
        'else': ('<py:if test="t()">y</py:if><py:else>n</py:else>', 1),
        'switch': ('<py:switch test="t()"><py:case value="0">a</py:case><py:case value="5">b</py:case>'
                   '<py:else>c</py:else></py:switch>', 1),
        'for': ('<py:for each="x in [t(), 2, 3]">$x</py:for>', 1),
        'fora': ('<b py:for="x in [t(), 2]">$x</b>', 1),
        'with': ('<py:with vars="x=t()">$x$x</py:with>', 1),
        'expr': ('${t()}', 1), 'named': ('<py:with vars="f=t">${f()}</py:with>', 1),
        'content': ('<b py:content="t()"/>', 1), 'replace': ('<b py:replace="t()"/>', 1),
        'attr': ('<b a="${t()}"/>', 1), 'attr2': ('<b a="x${t()}y"/>', 1),
        'attrs': ('<b py:attrs="{\'a\': t()}"/>', 1),
        'loop2': ('<py:for each="i in (1, 2)">${t()}</py:for>', 2),
        'skipped': ('<py:if test="False">${t()}<b py:if="t()" a="${t()}"/></py:if>', 0),
        'case': ('<py:switch test="9"><py:case value="t()">a</py:case></py:switch>', 1),
        'unreached': ('<py:switch test="3"><py:case value="3">a</py:case><py:case value="t()">b</py:case>'
                      '</py:switch>', 0),
        'uncalled': ('<py:def function="f()">${t()}</py:def>', 0),
        'called': ('<py:def function="f()">${t()}</py:def>${f()}', 1),
        'block': ('<py:block name="k">${t()}</py:block>', 1),
        'arg': ('<py:def function="f(x)">$x$x</py:def>${f(t())}', 1),
        'unused': ('<py:def function="f(c)">z</py:def><py:call function="f(%caller)">${t()}</py:call>', 0),
        'call': ('<py:def function="f(c)">${c()}</py:def><py:call function="f(%caller)">${t()}</py:call>', 1),
        'strip': ('<b py:strip="t()">y<i/></b>', 1), 'stripattr': ('<b py:strip="t()" c="1" d="${2}">y</b>', 1),
        'stripcontent': ('<b py:strip="t()" py:content="1"/>', 1), 'stripattrs': ('<b py:strip="t()" py:attrs="dict(z=1)"/>', 1),
        'striploop': ('<b py:for="i in (1, 2, 3)" py:strip="t()">$i</b>', 3),
        'call2': ('<py:def function="f(c)">${c()}${c()}</py:def><py:call function="f(%caller)">${t()}</py:call>',
                  2),
    }[shape]
    t = Tick(v)
    S.kajiki.XMLTemplate('<p>' + src + '</p>')(dict(t=t)).render()
    S.eq(t.n, want, 'number of evaluations')


ONCE = ['if', 'ifa', 'else', 'switch', 'for', 'fora', 'with', 'expr', 'named', 'content', 'replace', 'attr',
        'attr2', 'attrs', 'loop2', 'skipped', 'case', 'unreached', 'uncalled', 'called', 'block', 'arg',
        'unused', 'call', 'call2', 'strip', 'stripattr', 'stripcontent', 'stripattrs', 'striploop']


def empty(S):
    """A construct with nothing inside renders nothing."""
    c = S.bool('c')
    x = S.choice('x', ['<py:if test="c"/>', '<py:if test="c"/><py:else>n</py:else>',
                       '<py:if test="c">y</py:if><py:else/>', '<py:for each="i in (1, 2)"/>',
                       '<py:switch test="c"><py:case value="True"/><py:else/></py:switch>',
                       '<py:switch test="c"/>', '<py:with vars="q=1"/>', '<py:def function="f()"/>',
                       '<py:def function="f()"/>${f()}', '<py:block name="k"/>',
                       '<py:if test="c"><!--! only a comment --></py:if>',
                       '<py:for each="i in (1,)"><py:def function="g()">G</py:def></py:for>',
                       '<py:def function="f(c)">${c()}</py:def><py:call function="f(%caller)"/>'])
    out = S.kajiki.XMLTemplate('<p>[' + x + ']</p>')(dict(c=c)).render()
    if 'py:else>n' in x:
        w = '' if S.is_true(c) else 'n'
    elif 'y</py:if>' in x:
        w = 'y' if S.is_true(c) else ''
    else:
        w = ''
    S.eq(out, '<p>[' + w + ']</p>', 'empty construct')


def rejected(S):
    """Misplaced py:else and foreign content of py:switch are refused."""
    pad = S.str('pad', (1, 2), LOWER)
    x = S.choice('x', ['text', 'elem', 'elsefirst'])
    if x == 'text':
        src = '<p><py:switch test="1">' + pad + '<py:case value="1">a</py:case></py:switch></p>'
    elif x == 'elem':
        src = '<p><py:switch test="1"><b>' + pad + '</b><py:case value="1">a</py:case></py:switch></p>'
    else:
        src = '<p><py:if test="1">a</py:if>' + pad + '<py:else>b</py:else></p>'
    try:
        S.kajiki.XMLTemplate(src)
    except Exception as e:
        S.check(type(e).__name__ in ('XMLTemplateCompileError', 'KajikiSyntaxError'), 'compile error',
                got=type(e).__name__)
        return
    S.fail('a misplaced construct was accepted', src=src)


def plan(tier):
    big = tier != 'quick'
    P = [('nest', dict(outer=o, inner=i)) for o in KINDS for i in KINDS]
    P += [('nest', dict(outer=o, inner=i, mode='html5')) for o in ('if', 'fora', 'switcha') for i in ('strip', 'ifelsea')]
    if big:
        P = [('nest', dict(outer=o, inner=i, deep=KINDS)) for o in KINDS for i in KINDS] + P
    P += [('seqs', dict(a=a, b=b)) for a in KINDS for b in ('if', 'ifelse', 'for', 'switch', 'with', 'strip')]
    P += [('truth', dict(form=f)) for f in ('if', 'ifnot', 'ifa', 'else', 'elsea', 'strip', 'stripa', 'stripe',
                                           'stripor', 'stripc')]
    P += [('switch_int', dict(shape=s)) for s in ('elem', 'noelse', 'attr', 'expr', 'nested', 'loop', 'after',
                                                 'infunc')]
    P += [('adjacent', dict(mode=m, k=3 if big else 2)) for m in ('xml', 'html')]
    P += [('inexpr', dict(place=p, body=b)) for p in sorted(INEXPR) for b in sorted(BODY)]
    P += [('switch_kind', {})]
    P += [('iterables', dict(kind=k)) for k in sorted(ITERABLES)] + [('uniterable', {})]
    P += [('custom', dict(form=f)) for f in ('if', 'ifa', 'else', 'elsea', 'strip', 'stripe')]
    P += [('loop', dict(form=f, n=5 if big else 3)) for f in ('elem', 'attr', 'attr2', 'replace', 'enum')]
    P += [('once', dict(shape=s)) for s in ONCE]
    P += [('empty', {}), ('rejected', {})]
    P += [('control', dict(n=m, shape=s)) for m, s in ((130, 'loop'), (25, 'ifs'), (15, 'fors'), (40, 'cases'), (15, 'switches'), (40, 'row'))]
    return P
