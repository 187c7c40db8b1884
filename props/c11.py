"""Inheritance: py:extends, py:block, parent, child, self, local."""
from symkj.api import ANY, LOWER, XMLNOCR, chars, without
from props.ref import esc, esc_text
from props.large import chain, blocks as large_blocks

BOUNDS = ('chains of 1..4 templates; at every level the function and the block may or may not be overridden (all combinations), '
          'the block with or without the parent block before/after/twice; calls through f, self.f, local.f, parent.f and child.f from '
          'main text, functions and blocks of each level; two blocks, nested blocks; symbolic values of 0..2 (thorough 3) characters; '
          'every order of three renders of the templates of one loader; text and Python of the child outside its blocks')
OUTSIDE = ('calls through a template that neither defines nor inherits the function; extending a template object instead of a name; '
           'a context with variables named self or local')

NAMES = ['root', 'mid', 'leaf', 'tip']


def load(S, srcs, kinds=None):
    X = S.kajiki.XMLTemplate
    return S.kajiki.MockLoader(dict((n, X(s)) for n, s in srcs.items()))


def resolve(defs, level):
    """Name of the nearest level at or above (towards the root) that defines f."""
    for i in range(level, -1, -1):
        if defs[i]:
            return NAMES[i]
    return None


def probe(S, depth, at, place):
    """Which definition a call reaches."""
    defs = [S.choice('def%d' % i, [True, False]) for i in range(depth)]
    how = S.choice('how', ['f', 'self.f', 'local.f', 'parent.f', 'child.f'])
    v = S.str('v', (1, 1), ANY)
    target = {'f': depth - 1, 'self.f': depth - 1, 'local.f': at, 'parent.f': at - 1, 'child.f': at + 1}[how]
    S.assume(0 <= target < depth)
    hit = resolve(defs, target)
    S.assume(hit is not None)
    call = '${%s(v)}' % how
    src = {}
    for i in range(depth):
        f = '<py:def function="f(x)">%s$x</py:def>' % NAMES[i] if defs[i] else ''
        g = '<py:def function="g()">[%s]</py:def>' % call if place == 'fn' and i == at else ''
        b = '<py:block name="b">[%s]</py:block>' % call if place == 'block' and i == at else ''
        if i == 0:
            g = g or '<py:def function="g()">-</py:def>'
            b = b or '<py:block name="b">-</py:block>'
            src[NAMES[0]] = '<r>' + f + g + '${g()}' + b + ('[%s]' % call if place == 'main' and at == 0 else '.') + '</r>'
        else:
            src[NAMES[i]] = '<py:extends href="%s">%s%s%s</py:extends>' % (NAMES[i - 1], f, g, b)
    out = load(S, src).import_(NAMES[depth - 1])(
        dict(v=v, **S.choice('ctx', [{}, dict(parent=1, child=2, parent_block=3)]))).render()
    r = '[' + hit + esc(v) + ']'
    w = '<r>' + (r if place == 'fn' else '-') + (r if place == 'block' else '-') + (r if place == 'main' else '.') + '</r>'
    S.eq(out, w, 'which definition is called')


KINDS = ['none', 'replace', 'before', 'after', 'twice', 'empty']


def blocks(S, depth, n, kinds):
    """The block of the child-most template that has one; parent_block() is the next one up."""
    k = [None] + [S.choice('k%d' % i, kinds) for i in range(1, depth)]
    v = [S.str('v%d' % i, (0, n), ANY) for i in range(depth)]
    ctx = dict(('v%d' % i, v[i]) for i in range(depth))
    src = {NAMES[0]: '<r>(<py:block name="b">${v0}0</py:block>)</r>'}

    def ref(i):
        if i == 0:
            return esc(v[0]) + '0'
        own = esc(v[i]) + str(i)
        up = ref(i - 1)
        return {'none': up, 'replace': own, 'before': up + own, 'after': own + up, 'twice': up + own + up, 'empty': ''}[k[i]]
    for i in range(1, depth):
        own = '${v%d}%d' % (i, i)
        b = {'none': '', 'replace': own, 'before': '${parent_block()}' + own, 'after': own + '${parent_block()}',
             'twice': '${parent_block()}' + own + '${parent_block()}', 'empty': ''}[k[i]]
        if k[i] != 'none':
            b = '<py:block name="b">' + b + '</py:block>'
        src[NAMES[i]] = '<py:extends href="%s">%s</py:extends>' % (NAMES[i - 1], b)
    if S.choice('taken', [False, True]):
        ctx.update(parent=1, child=2, parent_block=3)
    out = load(S, src).import_(NAMES[depth - 1])(ctx).render()
    S.eq(out, '<r>(' + ref(depth - 1) + ')</r>', 'blocks')


def two(S, n):
    """Overriding one block leaves the others alone."""
    a = S.choice('a', ['none', 'replace', 'before', 'empty'])
    b = S.choice('b', ['none', 'replace', 'before', 'empty'])
    order = S.choice('order', [0, 1])
    v = S.str('v', (0, n), ANY)

    def blk(name, kind):
        t = {'none': None, 'replace': '${v}' + name, 'before': '${parent_block()}${v}' + name, 'empty': ''}[kind]
        return '' if t is None else '<py:block name="%s">%s</py:block>' % (name, t)

    def ref(name, kind):
        return {'none': 'old' + name, 'replace': esc(v) + name, 'before': 'old' + name + esc(v) + name, 'empty': ''}[kind]
    kids = [blk('a', a), blk('b', b)]
    if order:
        kids.reverse()
    src = {'root': '<r><py:block name="a">olda</py:block>|<i py:block="b">oldb</i></r>',
           'leaf': '<py:extends href="root">' + ''.join(kids) + '</py:extends>'}
    out = load(S, src).import_('leaf')(dict(v=v)).render()
    wb = {'none': '<i>oldb</i>', 'before': '<i>oldb</i>' + esc(v) + 'b'}.get(b) or ref('b', b)
    S.eq(out, '<r>' + ref('a', a) + '|' + wb + '</r>', 'two blocks')


def nestedblocks(S, n):
    """A block inside a block: overriding the outer one replaces both unless it shows the parent's."""
    o = S.choice('outer', ['none', 'replace', 'before'])
    i = S.choice('inner', ['none', 'replace', 'before'])
    v = S.str('v', (0, n), ANY)
    ob = {'none': '', 'replace': '<py:block name="o">O$v</py:block>',
          'before': '<py:block name="o">${parent_block()}O$v</py:block>'}[o]
    ib = {'none': '', 'replace': '<py:block name="i">I$v</py:block>',
          'before': '<py:block name="i">${parent_block()}I$v</py:block>'}[i]
    src = {'root': '<r><py:block name="o">(<py:block name="i">x</py:block>)</py:block></r>',
           'leaf': '<py:extends href="root">' + ob + ib + '</py:extends>'}
    out = load(S, src).import_('leaf')(dict(v=v)).render()
    wi = {'none': 'x', 'replace': 'I' + esc(v), 'before': 'xI' + esc(v)}[i]
    wo = {'none': '(' + wi + ')', 'replace': 'O' + esc(v), 'before': '(' + wi + ')O' + esc(v)}[o]
    S.eq(out, '<r>' + wo + '</r>', 'nested blocks')


FORMS = {
    'elem': ('<r><py:block name="b">o</py:block></r>', '<py:block name="b">$v</py:block>', 'o', '%s'),
    'attr': ('<r><i py:block="b">o</i></r>', '<u py:block="b">$v</u>', '<i>o</i>', '<u>%s</u>'),
    'attrs': ('<r><i py:block="b" c="1">o</i></r>', '<u py:block="b" c="$v">$v</u>', '<i c="1">o</i>', None),
    'loop': ('<r><py:for each="x in (1, 2)"><py:block name="b">o</py:block></py:for></r>', '<py:block name="b">$v</py:block>', 'oo',
             '%s%s'),
    'blockfor': ('<r><i py:for="x in (1, 2)" py:block="b">o</i></r>', '<py:block name="b">$v</py:block>', '<i>o</i><i>o</i>', '%s%s'),
    'ifblock': ('<r><i py:if="True" py:block="b">o</i></r>', '<u py:block="b" py:if="v == v">$v</u>', '<i>o</i>', '<u>%s</u>'),
    'deep': ('<r><a><b><py:block name="b">o</py:block></b></a></r>', '<x><y><py:block name="b">$v</py:block></y></x>',
             '<a><b>o</b></a>', None),
    'indef': ('<r><py:def function="h()"><py:block name="b">o</py:block></py:def>${h()}</r>', '<py:block name="b">$v</py:block>', 'o',
              '%s'),
    'dash': ('<r><py:block name="b_2">o</py:block></r>', '<py:block name="b_2">$v</py:block>', 'o', '%s'),
}


def form(S, s, n):
    v = S.str('v', (0, n), ANY)
    root, kid, old, new = FORMS[s]
    over = S.choice('over', [True, False])
    src = {'root': root, 'leaf': '<py:extends href="root">' + (kid if over else '') + '</py:extends>'}
    out = load(S, src).import_('leaf')(dict(v=v)).render()
    e = esc(v)
    if not over:
        w = old
    elif s == 'attrs':
        w = '<u c="' + e + '">' + e + '</u>'
    elif s == 'deep':
        w = '<a><b>' + e + '</b></a>'
        S.eq(out, '<r>' + w + '</r><x><y/></y></x>'.replace('<y/></y>', '<y></y>'), 'override found deep in the child')
        return
    else:
        w = new.replace('%s', e)
    S.eq(out, '<r>' + w + '</r>', 'form of block')


def place(S, how, n):
    """What the child has outside its blocks and functions is rendered after the parent, in place."""
    t = S.str('t', (1, n), without(XMLNOCR, '$<&'))
    v = S.str('v', (0, 1), ANY)
    p = '<r>' + esc(v) + '</r>'
    src, w = {
        'after': ('<py:extends href="root">' + t + '</py:extends>', p + esc_text(t)),
        'around': ('<d>' + t + '<py:extends href="root"/>' + t + '</d>', '<d>' + esc_text(t) + p + esc_text(t) + '</d>'),
        'attr': ('<d py:extends="root">' + t + '</d>', '<d>' + p + esc_text(t) + '</d>'),
        'expr': ('<py:extends href="root">$v</py:extends>', p + esc(v)),
        'def': ('<py:extends href="root"><py:def function="h(x)">[$x]</py:def>${h(v)}</py:extends>', p + '[' + esc(v) + ']'),
        'py': ('<py:extends href="root"><?py z = v?>$z</py:extends>', p + esc(v)),
        'if': ('<d><py:if test="v == v"><py:extends href="root"/></py:if><py:else>no</py:else></d>', '<d>' + p + '</d>'),
    }[how]
    out = load(S, {'root': '<r>$v</r>', 'leaf': src}).import_('leaf')(dict(v=v)).render()
    S.eq(out, w, 'child outside its blocks')


def dynamic(S, n):
    """The parent may depend on data."""
    c = S.bool('c')
    v = S.str('v', (0, n), ANY)
    src = {'p0': '<a><py:block name="b">0</py:block></a>', 'p1': '<b><py:block name="b">1</py:block></b>',
           'leaf': '<d><py:if test="c"><py:extends href="p0"/></py:if><py:else><py:extends href="p1"/></py:else></d>'}
    L = load(S, src)
    out = L.import_('leaf')(dict(c=c, v=v)).render()
    S.eq(out, '<d><a>0</a></d>' if S.is_true(c) else '<d><b>1</b></d>', 'dynamic parent')
    out = L.import_('leaf')(dict(c=not c, v=v)).render()
    S.eq(out, '<d><b>1</b></d>' if S.is_true(c) else '<d><a>0</a></d>', 'dynamic parent, second render')


def virtual(S, n):
    """Text of an ancestor calls what descendants override, through any number of functions."""
    v = S.str('v', (0, n), ANY)
    o = [S.choice('o%d' % i, [False, True]) for i in range(3)]      # which of f, g, h the leaf overrides
    root = ('<r><py:def function="f(x)">f(${g(x)})</py:def><py:def function="g(x)">g(${h(x)})</py:def>'
            '<py:def function="h(x)">h$x</py:def>${f(v)}</r>')
    kid = ''
    if o[0]:
        kid += '<py:def function="f(x)">F(${g(x)})</py:def>'
    if o[1]:
        kid += '<py:def function="g(x)">G(${h(x)}${parent.g(x)})</py:def>'
    if o[2]:
        kid += '<py:def function="h(x)">H$x</py:def>'
    out = load(S, {'root': root, 'leaf': '<py:extends href="root">' + kid + '</py:extends>'}).import_('leaf')(dict(v=v)).render()
    h = ('H' if o[2] else 'h') + esc(v)
    g = 'g(' + h + ')'
    if o[1]:
        g = 'G(' + h + g + ')'
    S.eq(out, '<r>' + ('F' if o[0] else 'f') + '(' + g + ')</r>', 'overriding')


def defaults(S, n):
    """Overriding and inherited functions take all kinds of arguments."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    over = S.choice('over', [False, True])
    call, w = S.choice('call', [('f(a)', 'ax'), ('f(a, b)', 'ab'), ('f(y=b, x=a)', 'ab'), ('self.f(a)', 'ax'), ('self.f(y=b, x=a)', 'ab'),
                                ('local.f(a, y=b)', 'ab')])
    root = "<r><py:def function=\"f(x, y='x')\">$x,$y</py:def>${%s}<py:block name=\"k\">-</py:block></r>" % call
    kid = "<py:def function=\"f(x, y='x')\">$x;$y</py:def>" if over else ''
    kid += '<py:block name="k">${%s}</py:block>' % call
    out = load(S, {'root': root, 'leaf': '<py:extends href="root">' + kid + '</py:extends>'}).import_('leaf')(dict(a=a, b=b)).render()
    second = esc(b) if w == 'ab' else 'x'
    up = ';' if over and not call.startswith('local') else ','
    dn = ';' if over else ','
    S.eq(out, '<r>' + esc(a) + up + second + esc(a) + dn + second + '</r>', 'arguments of inherited functions')


def modvars(S):
    """Variables that the templates set at module level stay their own; the context comes first everywhere."""
    has = [S.choice('has%d' % i, [False, True]) for i in range(3)]
    v = S.str('v', (0, 1), ANY)
    given = S.choice('given', [False, True])
    show = "${K if defined('K') else '-'}"
    k = ['<?py %%K = %d\n?>' % i if h else '' for i, h in enumerate(has)]
    src = {'root': '<r>' + k[0] + show + '<py:def function="f()">' + show + '</py:def>${f()}<py:block name="b">b</py:block></r>',
           'mid': '<py:extends href="root">' + k[1] + '<py:block name="b">' + show + '</py:block></py:extends>',
           'leaf': '<py:extends href="mid">' + k[2] + '<py:block name="b">${parent_block()}' + show + '</py:block></py:extends>'}
    out = load(S, src).import_('leaf')(dict(K=v) if given else {}).render()
    w = [esc(v) if given else str(i) if h else '-' for i, h in enumerate(has)]
    S.eq(out, '<r>' + w[0] + w[0] + w[1] + w[2] + '</r>', 'variables of modules')


def order(S, n):
    """Rendering some templates of a loader never changes what others render to."""
    v = S.str('v', (0, n), ANY)
    src = {'root': '<r><py:def function="f()">R</py:def>${f()}${self.f()}<py:block name="b">rb</py:block></r>',
           'one': '<py:extends href="root"><py:def function="f()">1</py:def></py:extends>',
           'two': '<py:extends href="root"><py:block name="b">${parent_block()}$v</py:block></py:extends>',
           'three': '<py:extends href="two"><py:def function="f()">3</py:def><py:block name="b">${parent_block()}3</py:block></py:extends>'}
    want = {'root': '<r>RRrb</r>', 'one': '<r>11rb</r>', 'two': '<r>RRrb' + esc(v) + '</r>', 'three': '<r>33rb' + esc(v) + '3</r>'}
    L = load(S, src)
    for i in range(3):
        name = S.choice('n%d' % i, sorted(src))
        S.eq(L.import_(name)(dict(v=v)).render(), want[name], 'render %d' % i)


def instances(S, n):
    """Two live instances of a child, streamed alternately, do not mix."""
    a = S.str('a', (0, n), ANY)
    b = S.str('b', (0, n), ANY)
    src = {'root': '<r><py:block name="b">o</py:block>$v<py:block name="c">o</py:block></r>',
           'leaf': '<py:extends href="root"><py:block name="b">1${parent_block()}$v</py:block>'
                   '<py:block name="c">2${parent_block()}$v</py:block></py:extends>'}
    T = load(S, src).import_('leaf')
    x, y = iter(T(dict(v=a))), iter(T(dict(v=b)))
    parts = {0: [], 1: []}
    live = [x, y]
    k = S.choice('start', [0, 1])
    while live[0] is not None or live[1] is not None:
        if live[k] is not None:
            try:
                parts[k].append(next(live[k]))
            except StopIteration:
                live[k] = None
        k = 1 - k
    for i, v in ((0, a), (1, b)):
        S.eq(''.join(parts[i]), '<r>1o' + esc(v) + esc(v) + '2o' + esc(v) + '</r>', 'instance %d' % i)


def autoblock(S, n):
    """Autoblocks make named elements blocks, unless disabled."""
    v = S.str('v', (0, n), ANY)
    off = S.choice('off', ['', ' py:autoblock="False"', ' py:autoblock="True"', ' py:autoblock="false"'])
    X = S.kajiki.XMLTemplate
    kid = '<py:extends href="root"><body>$v</body></py:extends>'
    L = S.kajiki.MockLoader({'root': X('<r><py:block name="body">old</py:block></r>'), 'leaf': X(kid, autoblocks=['body']),
                             'plain': X(kid), 'self': X('<r><body%s>$v</body></r>' % off, autoblocks=['body'])})
    S.eq(L.import_('leaf')(dict(v=v)).render(), '<r>' + esc(v) + '</r>', 'autoblock overrides')
    S.eq(L.import_('plain')(dict(v=v)).render(), '<r>old</r><body>' + esc(v) + '</body>', 'no autoblocks')
    if off.lower().endswith('false"'):
        S.eq(L.import_('self')(dict(v=v)).render(), '<r><body>' + esc(v) + '</body></r>', 'disabled')
    else:
        S.eq(L.import_('self')(dict(v=v)).render(), '<r>' + esc(v) + '</r>', 'autoblock in place')


def missing(S):
    """A parent that does not exist is an error, not an empty page."""
    v = S.str('v', (0, 1), ANY)
    fs = S.fs()
    fs.write('leaf.xml', '<py:extends href="nope.xml"><py:block name="b">x</py:block></py:extends>', 1)
    try:
        out = S.kajiki.FileLoader(fs.root).load('leaf.xml')(dict(v=v)).render()
    except (IOError, OSError):
        S.check(True, 'refused')
        return
    S.fail('a missing parent was ignored', out=out)


def files(S, n):
    """The same through the file loader."""
    v = S.str('v', (0, n), ANY)
    fs = S.fs()
    fs.write('base/root.xml', '<r><py:def function="f(x)">r$x</py:def>${f(v)}<py:block name="b">o</py:block></r>', 1)
    fs.write('mid.xml', '<py:extends href="base/root.xml"><py:block name="b">${parent_block()}m</py:block></py:extends>', 1)
    fs.write('leaf.xml', '<py:extends href="mid.xml"><py:def function="f(x)">l$x</py:def>'
                         '<py:block name="b">${f(1)}${parent_block()}${parent.f(2)}</py:block></py:extends>', 1)
    L = S.kajiki.FileLoader(fs.root)
    S.eq(L.load('leaf.xml')(dict(v=v)).render(), '<r>l' + esc(v) + 'l1omr2</r>', 'leaf')
    S.eq(L.load('mid.xml')(dict(v=v)).render(), '<r>r' + esc(v) + 'om</r>', 'mid')
    S.eq(L.load('base/root.xml')(dict(v=v)).render(), '<r>r' + esc(v) + 'o</r>', 'root')


def plan(tier):
    big = tier != 'quick'
    n = 3 if big else 2
    P = []
    for depth in (1, 2, 3) + ((4,) if big else ()):
        for at in range(depth):
            for pl in ('main', 'fn', 'block'):
                if pl == 'main' and at:
                    continue
                P.append(('probe', dict(depth=depth, at=at, place=pl)))
    P += [('blocks', dict(depth=d, n=n if d < 4 else 1, kinds=KINDS if d < 4 else ['none', 'replace', 'before', 'twice'])) for d in (1, 2, 3, 4)
          if big or d < 4]
    if not big:
        P += [('blocks', dict(depth=4, n=0, kinds=['none', 'before', 'replace']))]
    P += [('two', dict(n=n)), ('nestedblocks', dict(n=n))]
    P += [('form', dict(s=s, n=n)) for s in sorted(FORMS)]
    P += [('place', dict(how=h, n=n)) for h in ('after', 'around', 'attr', 'expr', 'def', 'py', 'if')]
    P += [('dynamic', dict(n=n)), ('virtual', dict(n=n)), ('defaults', dict(n=1)), ('order', dict(n=1)),
          ('instances', dict(n=1)), ('modvars', {}), ('autoblock', dict(n=n)), ('missing', {}), ('files', dict(n=n))]
    P += [('chain', dict(n=8, shape='chain')), ('large_blocks', dict(n=40))]
    return P
