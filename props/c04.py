"""py:attrs and boolean attributes."""
import itertools

from symkj.api import ANY, LOWER, chars
from props.ref import esc, BOOLEAN
from props.makings import pick
from props.large import pairs

BOUNDS = ('dictionaries, pair lists and iterators of 0..3 pairs; names of 1..2 symbolic letters or any '
          'of the nine boolean names; values None, booleans, integers -30..120, or symbolic text of '
          '0..3 (thorough 5) arbitrary code points; 3 modes; with static attributes and py:strip; values of 46 makings (props/makings.py); boolean attributes given numbers')
OUTSIDE = 'several pairs with the same name; markup objects as values'


def ref_attrs(S, pairs, mode):
    out = ''
    for k, v in sorted(pairs, key=lambda kv: kv[0]):
        if v is None:
            continue
        if k in BOOLEAN:
            if isinstance(v, bool) or (not isinstance(v, (str, int)) and S.symbolic
                                       and type(v).__name__ == 'SymBool'):
                if not S.is_true(v):
                    continue
                v = k
            if mode != 'xml':
                out = out + ' ' + k
                continue
        out = out + ' ' + k + '="' + esc(str(v)) + '"'
    return out


def value(S, name, n, kinds=('none', 'str', 'int', 'bool')):
    k = S.choice(name + '?', kinds)
    if k == 'none':
        return None
    if k == 'int':
        return S.int(name, 2, 12)
    if k == 'bool':
        return S.bool(name)
    return S.str(name, (0, n), ANY)


def close(mode):
    return '/>' if mode == 'xml' else '></p>'


def one(S, mode, kind, n):
    """One pair with an arbitrary short name."""
    k = S.str('k', (1, 2), LOWER)
    v = value(S, 'v', n)
    attrs = {'dict': lambda: {k: v}, 'list': lambda: [(k, v)], 'tuple': lambda: ((k, v),),
             'iter': lambda: iter([[k, v]])}[kind]()
    out = S.kajiki.XMLTemplate('<p py:attrs="d"/>', mode=mode, is_fragment=True)(
        dict(d=attrs)).render()
    S.eq(out, '<p' + ref_attrs(S, [(k, v)], mode) + close(mode), 'one pair')


class Items(object):
    """The least that has items()."""
    def __init__(self, d):
        self.d = d

    def items(self):
        return self.d.items()


def mapping(S, kind, n):
    """Mappings of other kinds than dict."""
    import collections
    import types
    v = value(S, 'v', n)
    d = collections.OrderedDict([('c', v), ('b', '"'), ('a', None), ('checked', True)])
    m = {'user': collections.UserDict, 'ordered': lambda x: x, 'proxy': types.MappingProxyType, 'items': Items,
         'chain': collections.ChainMap, 'view': lambda x: x.items(), 'gen': lambda x: ((k, x[k]) for k in x),
         'default': lambda x: collections.defaultdict(str, x)}[kind](d)
    out = S.kajiki.XMLTemplate('<p py:attrs="d"/>')(dict(d=m)).render()
    S.eq(out, '<p' + ref_attrs(S, list(d.items()), 'xml') + '/>', 'mapping')


def makings(S, group, n):
    """Values of many makings show their string form, escaped."""
    v, s, name = pick(S, n, ANY, group)
    src = S.choice('src', ['{"a": v, "b": None}', '[("b", None), ("a", v)]', 'iter([("a", v)])'])
    out = S.kajiki.XMLTemplate("<p c='1' py:attrs='" + src + "'/>")(dict(v=v)).render()
    S.eq(out, '<p c="1" a="' + esc(s) + '"/>', 'a value made as ' + name)


def boolean(S, mode, n, src):
    """The nine boolean attributes."""
    k = S.choice('k', BOOLEAN)
    v = value(S, 'v', n)
    T = {'dict': '<p py:attrs="{k: v}"/>', 'list': '<p py:attrs="[(k, v)]"/>'}[src]
    out = S.kajiki.XMLTemplate(T, mode=mode, is_fragment=True)(dict(k=k, v=v)).render()
    S.eq(out, '<p' + ref_attrs(S, [(k, v)], mode) + close(mode), 'boolean attribute')


def number(S, mode, src):
    """1 and 0 are equal to True and False."""
    k = S.choice('k', BOOLEAN)
    v = S.int('v', -2, 3)
    T = {'dict': '<p py:attrs="{k: v}"/>', 'list': '<p py:attrs="[(k, v)]"/>'}[src]
    out = S.kajiki.XMLTemplate(T, mode=mode, is_fragment=True)(dict(k=k, v=v)).render()
    if S.is_true(v == 0):
        want = ''
    elif mode != 'xml':
        want = ' ' + k
    else:
        want = ' ' + k + '="' + (k if S.is_true(v == 1) else str(v)) + '"'
    S.eq(out, '<p' + want + close(mode), 'boolean attribute given a number')


def ordinary(S, mode):
    """Names that merely resemble boolean ones are ordinary."""
    k = S.choice('k', ['check', 'checkedx', 'disable', 'select', 'xdefer', 'a', 'hidden', 'value'])
    v = value(S, 'v', 1)
    out = S.kajiki.XMLTemplate('<p py:attrs="{k: v}"/>', mode=mode, is_fragment=True)(
        dict(k=k, v=v)).render()
    S.eq(out, '<p' + ref_attrs(S, [(k, v)], mode) + close(mode), 'ordinary attribute')


def many(S, kind, mode, n):
    """Several pairs: name order, None left out, each name keeps its value."""
    if kind == 'dict':
        names = S.choice('names', list(itertools.permutations(['a', 'ab', 'B'])))
    else:
        names = [S.str('k%d' % i, (1, 1), LOWER) for i in range(3)]
        S.assume(names[0] != names[1])
        S.assume(names[1] != names[2])
        S.assume(names[0] != names[2])
    vals = [S.str('v0', (0, n), ANY), value(S, 'v1', 1, ('none', 'bool')), value(S, 'v2', 1, ('none', 'int'))]
    pairs = list(zip(names, vals))
    attrs = dict(pairs) if kind == 'dict' else pairs
    out = S.kajiki.XMLTemplate('<p py:attrs="d"/>', mode=mode, is_fragment=True)(
        dict(d=attrs)).render()
    S.eq(out, '<p' + ref_attrs(S, pairs, mode) + close(mode), 'several pairs')


def nothing(S, mode):
    d = S.choice('d', [None, {}, [], ()])
    out = S.kajiki.XMLTemplate('<p a="1" py:attrs="d"/>', mode=mode, is_fragment=True)(
        dict(d=d)).render()
    S.eq(out, '<p a="1"' + close(mode), 'no dynamic attributes')


SHAPES = {
    'static': ('<p z="$s" b="1" py:attrs="d"/>', ' b="1" z="%s"', '/>'),
    'kids': ('<p z="$s" py:attrs="d">t<b/></p>', ' z="%s"', '>t<b/></p>'),
    'content': ('<p z="$s" py:attrs="d" py:content="1"/>', ' z="%s"', '>1</p>'),
    'if': ('<p z="$s" py:if="True" py:attrs="d"/>', ' z="%s"', '/>'),
    'for': ('<p z="$s" py:for="i in [1]" py:attrs="d"/>', ' z="%s"', '/>'),
    'strip0': ('<p z="$s" py:strip="False" py:attrs="d">t</p>', ' z="%s"', '>t</p>'),
    'def': ('<p z="$s" py:attrs="f(d)"><?py f = dict ?></p>', None, None),
    'expr': ('<p z="$s" py:attrs="dict(d, y=None)"/>', ' z="%s"', '/>'),
}


def shape(S, shape, n):
    """Static attributes first, then the dynamic ones."""
    s = S.str('s', (0, n), ANY)
    v = value(S, 'v', n)
    src, st, tail = SHAPES[shape]
    out = S.kajiki.XMLTemplate('<r>' + src + '</r>')(dict(s=s, d={'c': v})).render()
    a, b = st.split('%s')
    S.eq(out, '<r><p' + a + esc(s) + b + ref_attrs(S, [('c', v)], 'xml') + tail + '</r>', 'shape')


def strip(S, n):
    """A stripped tag shows no attributes."""
    s = S.bool('s')
    v = value(S, 'v', n)
    out = S.kajiki.XMLTemplate('<r><p py:strip="s" py:attrs="{\'c\': v, \'checked\': v}">t</p></r>')(
        dict(s=s, v=v)).render()
    if S.is_true(s):
        w = 't'
    else:
        w = '<p' + ref_attrs(S, [('c', v), ('checked', v)], 'xml') + '>t</p>'
    S.eq(out, '<r>' + w + '</r>', 'strip')


def two(S, mode):
    """Two tags of the same template do not influence each other."""
    a = value(S, 'a', 1)
    b = value(S, 'b', 1)
    out = S.kajiki.XMLTemplate('<r><p py:attrs="{\'checked\': a}"/><p py:attrs="{\'selected\': b}"/></r>',
                               mode=mode, is_fragment=True)(dict(a=a, b=b)).render()
    S.eq(out, '<r><p' + ref_attrs(S, [('checked', a)], mode) + close(mode) + '<p'
         + ref_attrs(S, [('selected', b)], mode) + close(mode) + '</r>', 'two tags')


def plan(tier):
    return plan_(tier) + [('number', dict(mode=m, src=s)) for m in ('xml', 'html', 'html5') for s in ('dict', 'list')]


def plan_(tier):
    n = 3 if tier == 'quick' else 5
    P = []
    for m in ('xml', 'html', 'html5'):
        P += [('boolean', dict(mode=m, n=2, src=s)) for s in ('dict', 'list')]
        P += [('ordinary', dict(mode=m)), ('nothing', dict(mode=m)), ('two', dict(mode=m))]
    P += [('one', dict(mode=m, kind=k, n=n)) for m in ('xml', 'html')
          for k in ('dict', 'list', 'tuple', 'iter')]
    P += [('many', dict(mode=m, kind=k, n=1 if tier == 'quick' else 2))
          for m, k in (('xml', 'dict'), ('html', 'list'), ('xml', 'list'))]
    P += [('shape', dict(shape=s, n=n - 1)) for s in sorted(SHAPES) if SHAPES[s][1]]
    P += [('strip', dict(n=n - 1))]
    P += [('makings', dict(group=g, n=1 if tier == 'quick' else 3)) for g in range(8)]
    P += [('mapping', dict(kind=k, n=1)) for k in ('user', 'ordered', 'proxy', 'items', 'chain', 'view', 'gen', 'default')]
    P += [('pairs', dict(n=40, kind=k)) for k in ('dict', 'list', 'iter')]
    return P
