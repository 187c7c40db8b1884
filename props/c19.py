"""Templates written as Python functions, and the flattening of what they yield."""
from symkj.api import ANY, LOWER, chars
from props.ref import esc
from props.large import handmade

BOUNDS = ('trees of up to 3 pieces per function and 3 levels of functions, each piece a symbolic choice of text (0..2 arbitrary characters), number, None, '
          'markup or a further function; 2 instances with interleaving at a symbolic point; 12 parameter shapes; inheritance between '
          'hand-written and compiled templates in both directions')
OUTSIDE = ('generators that catch GeneratorExit; coroutines; functions with closures (documented functions take their names from the context)')


def piece(S, name, kids):
    k = S.choice('kind' + name, ['text', 'int', 'none', 'literal', 'empty'] + (['fn', 'nested'] if kids else []))
    return k


def tree(S, name, depth, width):
    """-> python items: list of ('leaf', value) | ('fn', items)"""
    out = []
    n = S.choice('n' + name, list(range(width + 1)))
    for i in range(n):
        nm = name + str(i)
        k = S.choice('k' + nm, ['text', 'int', 'none', 'literal'] + (['fn'] if depth else []))
        if k == 'text':
            out.append(('leaf', S.str('t' + nm, (0, 1), ANY)))
        elif k == 'int':
            out.append(('leaf', 7))
        elif k == 'none':
            out.append(('leaf', None))
        elif k == 'literal':
            out.append(('lit', S.str('t' + nm, (0, 1), ANY)))
        else:
            out.append(('fn', tree(S, nm, depth - 1, 1)))
    return out


def text_of(items):
    out = ''
    for k, v in items:
        if k == 'fn':
            out = out + text_of(v)
        elif v is not None:
            out = out + str(v)
    return out


def flatten(S, width, depth, how):
    """Whatever the nesting, the output is the pieces in order without the Nones."""
    its0 = tree(S, 'r', depth, width)
    K = S.kajiki

    class tpl:
        @K.expose
        def walk(its):
            for k, v in its:
                if k == 'fn':
                    yield walk(v)
                elif k == 'lit':
                    yield literal(v)
                else:
                    yield v

        @K.expose
        def __main__():
            yield walk(items)
    t = K.Template(tpl)(dict(items=its0))
    want = text_of(its0)
    if how == 'render':
        S.eq(t.render(), want, 'render')
    elif how == 'iter':
        chunks = list(t)
        S.check(all([isinstance(c, str) for c in chunks]), 'chunks are text')
        S.eq(''.join(chunks), want, 'iteration')
    elif how == 'twice':
        t.render()
        S.eq(t.render(), want, 'second time')
    elif how == 'inner':
        S.eq(''.join([str(c) for c in t.walk(its0)]), want, 'a function called from outside')
    elif how == 'compiled':
        out = K.XMLTemplate('<x><py:def function="walk(its)"><py:for each="k, v in its"><py:if test="k == \'fn\'">${walk(v)}</py:if>'
                            '<py:else><py:if test="k == \'lit\'">${literal(v)}</py:if><py:else>${v}</py:else></py:else></py:for></py:def>${walk(items)}</x>')(dict(items=its0)).render()

        def shown(its):
            r = ''
            for k, v in its:
                r = r + (shown(v) if k == 'fn' else v if k == 'lit' else '' if v is None else esc(str(v)))
            return r
        S.eq(out, '<x>' + shown(its0) + '</x>', 'the same in a compiled template')


def accumulate(S, width, depth):
    """flattener: accumulate_str and iteration agree."""
    items = tree(S, 'r', depth, width)

    def build(its):
        F = S.kajiki.flattener

        def gen():
            for k, v in its:
                if k == 'fn':
                    yield build(v)
                elif k == 'lit':
                    yield F([v])
                else:
                    yield '7' if v == 7 else v
        return F(gen())
    want = text_of(items)
    S.eq(build(items).accumulate_str(), want, 'accumulate_str')
    S.eq(''.join(build(items)), want, 'iteration')
    S.eq(S.kajiki.flattener(build(items)).accumulate_str(), want, 'flattener of a flattener')


ARGS = {
    'pos': ('f(a, b)', lambda a, b: a + b), 'kw': ('f(b=b, a=a)', lambda a, b: a + b), 'mixed': ('f(a, b=b)', lambda a, b: a + b),
    'default': ('f(a)', lambda a, b: a + '-'), 'star': ('f(*[a, b])', lambda a, b: a + b), 'dstar': ("f(**{'a': a, 'b': b})", lambda a, b: a + b),
}


def args(S, shape, n):
    """Arguments reach exposed functions as in Python."""
    aa, bb = S.str('a', (0, n), ANY), S.str('b', (0, n), ANY)
    K = S.kajiki

    class tpl:
        @K.expose
        def f(a, b='-'):
            yield a
            yield b

        @K.expose
        def h(a, *, b='-'):
            yield a
            yield b

        @K.expose
        def g(*xs, **kw):
            for x in xs:
                yield x
            for k in sorted(kw):
                yield k
                yield kw[k]

        @K.expose
        def __main__():
            if how == 'pos':
                yield f(a, b)
            elif how == 'kw':
                yield f(b=b, a=a)
            elif how == 'mixed':
                yield f(a, b=b)
            elif how == 'default':
                yield f(a)
            elif how == 'star':
                yield f(*[a, b])
            elif how == 'dstar':
                yield f(**{'a': a, 'b': b})
            elif how == 'var':
                yield g(a, b, z=a)
            elif how == 'kwonly':
                yield h(a)
                yield h(a, b=b)
            elif how == 'self':
                yield self.f(a, b)
            elif how == 'local':
                yield local.f(a, b)
            elif how == 'twice':
                yield f(a, f(b))
            elif how == 'discard':
                f(a)
                yield f(b, '')
            elif how == 'kept':
                r = f(a)
                yield '['
                yield r
                yield ']'
    want = {'var': aa + bb + 'z' + aa, 'kwonly': aa + '-' + aa + bb, 'self': aa + bb, 'local': aa + bb, 'twice': aa + bb + '-', 'discard': bb, 'kept': '[' + aa + '-]'}.get(shape)
    if want is None:
        want = ARGS[shape][1](aa, bb)
    S.eq(K.Template(tpl)(dict(a=aa, b=bb, how=shape)).render(), want, 'arguments')


def instances(S, n):
    """Instances share code, not variables."""
    u, v = S.str('u', (0, n), ANY), S.str('v', (0, n), ANY)
    k = S.int('k', 0, 6)
    K = S.kajiki

    class tpl:
        @K.expose
        def part(i):
            yield str(i)
            yield name

        @K.expose
        def __main__():
            yield name
            for i in (1, 2):
                yield part(i)
            yield name
    T = K.Template(tpl)
    x, y = T(dict(name=u)), T(dict(name=v))
    it = iter(x)
    first = []
    i = 0
    while i < k:
        first.append(next(it))
        i += 1
    S.eq(y.render(), v + '1' + v + '2' + v + v, 'the other instance')
    first.extend(it)
    S.eq(''.join(first), u + '1' + u + '2' + u + u, 'this instance')
    S.eq(''.join([str(c) for c in x.part(3)]) + ''.join([str(c) for c in y.part(4)]), '3' + u + '4' + v, 'functions of instances')


def context(S, how, n):
    vv = S.str('v', (0, n), ANY)
    K = S.kajiki

    class tpl:
        @K.expose
        def f():
            yield defined('v')
            yield value_of('v', '?')

        def hidden():
            yield 'h'

        @K.expose
        def __main__():
            yield f()
            yield defined('hidden')
            yield local.__kj__.escape('<&>"')
            yield local.__kj__.escape(None)
            yield local.__kj__.escape(literal('<b>'))
            yield _('m')
    ctx = dict(v=vv) if how == 'given' else {}
    if how == 'gettext':
        ctx['gettext'] = lambda s: vv
    out = K.Template(tpl)(ctx).render() if how != 'none' else K.Template(tpl)().render()
    S.eq(out, ('True' + vv if how == 'given' else 'False?') + 'False' + '&lt;&amp;&gt;&quot;<b>' + (vv if how == 'gettext' else 'm'), 'context')


def inherit(S, how, n):
    """Hand-written and compiled templates extend and use each other."""
    vv = S.str('v', (0, n), ANY)
    K = S.kajiki

    class Par:
        @K.expose
        def __main__():
            yield '('
            yield head()
            yield local._kj_block_body()
            yield self.head()
            yield ')'

        @K.expose
        def head():
            yield 'P'
            yield local.__kj__.escape(v)

        @K.expose
        def _kj_block_body():
            yield 'B'

    class Chi:
        @K.expose
        def __main__():
            yield local.__kj__.extend('parent').__main__()

        @K.expose
        def head():
            yield 'C'
            yield local.__kj__.escape(v)
            yield '+'
            yield parent.head()

    class Lib:
        @K.expose
        def __main__():
            yield 'never'

        @K.expose
        def show(x):
            yield '<'
            yield local.__kj__.escape(x)

    class Inc:
        @K.expose
        def __main__():
            yield '('
            yield local.head()
            yield ')'

        @K.expose
        def head():
            yield 'P'
            yield local.__kj__.escape(v)
    e = esc(vv)
    cc = 'C' + e + '+P' + e
    if how == 'hand':
        ts = {'parent': K.Template(Par), 'm': K.Template(Chi)}
        want = '(' + cc + 'B' + cc + ')'
    elif how == 'compiledparent':
        ts = {'parent': K.XMLTemplate('<x>${head()}${self.head()}<b py:def="head()">P$v</b></x>'), 'm': K.Template(Chi)}
        w = 'C' + e + '+<b>P' + e + '</b>'
        want = '<x>' + w + w + '</x>'
    elif how == 'compiledchild':
        ts = {'parent': K.Template(Par), 'm': K.XMLTemplate('<py:extends href="parent"><py:def function="head()">X$v${parent.head()}</py:def></py:extends>')}
        w = 'X' + e + 'P' + e
        want = '(' + w + 'B' + w + ')'
    elif how == 'include':
        ts = {'parent': K.Template(Inc), 'm': K.XMLTemplate('<x><py:include href="parent"/></x>')}
        want = '<x>(P' + e + ')</x>'
    elif how == 'import':
        ts = {'lib': K.Template(Lib), 'm': K.XMLTemplate('<x><py:import href="lib" alias="q"/>${q.show(v)}</x>')}
        want = '<x><' + e + '</x>'
    elif how == 'textchild':
        ts = {'parent': K.Template(Par), 'm': K.TextTemplate('%extends "parent"\n%def head()\nX\\\n%end\n')}
        want = '(XBX)'
    out = K.MockLoader(ts).import_('m')(dict(v=vv)).render()
    S.eq(out, want, 'inheritance')


def sources(S, how, n):
    """Anything with exposed functions as attributes is a template."""
    vv = S.str('v', (0, n), ANY)
    K = S.kajiki

    @K.expose
    def __main__():
        yield 'm'
        yield v
        yield f(1)

    @K.expose
    def f_(i):
        yield i

    if how == 'class':
        class ns(object):
            pass
        ns.__main__ = __main__
        ns.f = f_
    elif how == 'static':
        class ns(object):
            pass
        ns.__main__ = staticmethod(__main__)
        ns.f = staticmethod(f_)
    elif how == 'inherits':
        class base(object):
            pass
        base.f = f_

        class ns(base):
            pass
        ns.__main__ = __main__
    elif how == 'renamed':
        class ns(object):
            pass
        ns.__main__ = __main__
        ns.f = f_
        ns.g = f_
    S.eq(K.Template(ns)(dict(v=vv)).render(), 'm' + vv + '1', 'template from ' + how)


def plan(tier):
    big = tier != 'quick'
    P = [('flatten', dict(width=2, depth=2 if big else 1, how=h)) for h in ('render', 'iter', 'twice', 'inner', 'compiled')]
    P += [('flatten', dict(width=1, depth=3 if big else 2, how=h)) for h in ('render', 'iter', 'compiled')]
    P += [('accumulate', dict(width=2, depth=1)), ('accumulate', dict(width=1, depth=3 if big else 2))]
    P += [('args', dict(shape=s, n=3 if big else 2)) for s in sorted(ARGS) + ['var', 'self', 'local', 'twice', 'discard', 'kept', 'kwonly']]
    P += [('instances', dict(n=3 if big else 2))]
    P += [('context', dict(how=h, n=3 if big else 2)) for h in ('given', 'absent', 'none', 'gettext')]
    P += [('inherit', dict(how=h, n=3 if big else 2)) for h in ('hand', 'compiledparent', 'compiledchild', 'include', 'import', 'textchild')]
    P += [('sources', dict(how=h, n=2)) for h in ('class', 'static', 'inherits', 'renamed')]
    P += [('handmade', dict(n=m, shape=s)) for m, s in ((60, 'deep'), (150, 'wide'))]
    return P
