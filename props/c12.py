"""Composition: py:include and py:import."""
from symkj.api import ANY, LOWER, XMLNOCR, chars, without
from props.ref import esc, esc_text
from props.makings import pick
from props.large import compose

BOUNDS = ('pages of up to 4 templates; includes nested 1..4 deep, repeated, in loops of 0..3 items, under conditions, in functions, '
          'call bodies, blocks, parents and children; imports with and without alias at each of these places and inside imported, '
          'included and parent templates; own and foreign functions of equal names; XML and text templates in each other; symbolic values '
          'of 0..2 (thorough 3) characters and symbolic static text around the include; loaders: files and MockLoader')
OUTSIDE = ('variables of the including template that are not in its context (py:with, loop variables, Python blocks) seen by the included one; '
           'module-level Python code of equal names; functions of the including page named like those of a parent of the included one; '
           'self inside included templates; a template that includes itself without end')


def page(S, srcs, how='file'):
    if how == 'mock':
        X = S.kajiki.XMLTemplate
        return S.kajiki.MockLoader(dict((n, X(s, is_fragment=True)) for n, s in srcs.items()))
    fs = S.fs()
    for n in sorted(srcs):
        fs.write(n, srcs[n], 1)
    return S.kajiki.FileLoader(fs.root)


def run(S, srcs, ctx, want, msg, how='file', main='page.xml'):
    S.eq(page(S, srcs, how).load(main)(ctx).render(), want, msg)


SPOTS = {
    # place -> (page source with %s for the include, rendered with %s for what is included)
    'plain': ('<p>%s</p>', '<p>%s</p>'),
    'twice': ('<p>%s|%s</p>', '<p>%s|%s</p>'),
    'root': ('<p>a<b/>%s<b/>z</p>', '<p>a<b/>%s<b/>z</p>'),
    'deep': ('<p><q><r>%s</r></q></p>', '<p><q><r>%s</r></q></p>'),
    'loop': ('<p><py:for each="i in (1, 2)">$i%s</py:for></p>', '<p>1%s2%s</p>'),
    'attrloop': ('<p><q py:for="i in (1, 2)">%s</q></p>', '<p><q>%s</q><q>%s</q></p>'),
    'if': ('<p><py:if test="v == v">%s</py:if><py:else>no</py:else></p>', '<p>%s</p>'),
    'else': ('<p><py:if test="v != v">no</py:if><py:else>%s</py:else></p>', '<p>%s</p>'),
    'switch': ('<p><py:switch test="1"><py:case value="1">%s</py:case><py:else>no</py:else></py:switch></p>', '<p>%s</p>'),
    'switch2': ('<p><py:switch test="2"><py:case value="1">no</py:case><py:case value="2">%s</py:case></py:switch>z</p>', '<p>%sz</p>'),
    'with': ('<p><py:with vars="w=1">$w%s$w</py:with></p>', '<p>1%s1</p>'),
    'def': ('<p><py:def function="pg(x)">$x%s</py:def>${pg(1)}${pg(2)}</p>', '<p>1%s2%s</p>'),
    'call': ('<p><py:def function="pg(x)">${x()}${x()}</py:def><py:call function="pg(%%caller)">%s</py:call></p>', '<p>%s%s</p>'),
    'block': ('<p><py:block name="pb">%s</py:block></p>', '<p>%s</p>'),
    'strip': ('<p><q py:strip="">%s</q></p>', '<p>%s</p>'),
}
PARTS = {
    'value': ('<i>$v</i>', lambda e: '<i>' + e + '</i>'),
    'attr': ('<i a="$v"/>', lambda e: '<i a="' + e + '"/>'),
    'fn': ('<i><py:def function="own(x)">[$x]</py:def>${own(v)}</i>', lambda e: '<i>[' + e + ']</i>'),
    'samefn': ('<i><py:def function="pg(x)">[$x]</py:def>${pg(v)}</i>', lambda e: '<i>[' + e + ']</i>'),
    'block': ('<i><py:block name="own">$v</py:block></i>', lambda e: '<i>' + e + '</i>'),
    'sameblock': ('<i><py:block name="pb">$v</py:block></i>', lambda e: '<i>' + e + '</i>'),
    'switch': ('<i><py:switch test="v"><py:case value="v">$v</py:case><py:else>no</py:else></py:switch></i>', lambda e: '<i>' + e + '</i>'),
    'with': ('<i><py:with vars="w=v; u=w">$u</py:with></i>', lambda e: '<i>' + e + '</i>'),
    'loop': ('<i><py:for each="i in (v, v)">$i</py:for></i>', lambda e: '<i>' + e + e + '</i>'),
    'literal': ('<i>${literal(v)}</i>', None),
    'doctype': ('<!DOCTYPE html><i>$v<b/></i>', lambda e: '<i>' + e + '<b></b></i>'),
    'child': ('<py:extends href="base.xml"><py:block name="k">[$v${parent_block()}]</py:block></py:extends>',
              lambda e: '<r>[' + e + 'o]</r>'),
    'imports': ('<i><py:import href="lib.xml" alias="l"/>${l.g(v)}</i>', lambda e: '<i>g' + e + '</i>'),
    'nested': ('<i>(<py:include href="inner.xml"/>)</i>', lambda e: '<i>(<u>' + e + '</u>)</i>'),
}
MORE = {'base.xml': '<r><py:block name="k">o</py:block></r>', 'lib.xml': '<l><py:def function="g(x)">g$x</py:def></l>',
        'inner.xml': '<u>$v</u>'}


def include(S, spot, part, how, n):
    """The included template is rendered in place, with the same variables."""
    v = S.str('v', (0, n), ANY)
    src, w = SPOTS[spot]
    inc, f = PARTS[part]
    piece = v if f is None else f(esc(v))
    if f is None:
        piece = '<i>' + v + '</i>'
    srcs = dict(MORE)
    srcs['part.xml'] = inc
    srcs['page.xml'] = src.replace('%s', '<py:include href="part.xml"/>').replace('%%', '%')
    run(S, srcs, dict(v=v), w.replace('%s', piece), 'included ' + part, how)


def around(S, n):
    """Static text next to the include."""
    a = S.str('a', (0, n), without(XMLNOCR, '$<&'))
    b = S.str('b', (0, n), without(XMLNOCR, '$<&'))
    c = S.str('c', (1, 1), without(XMLNOCR, '$<&'))
    run(S, {'page.xml': '<p>' + a + '<py:include href="part.xml"/>' + b + '</p>', 'part.xml': '<i>' + c + '</i>'}, {},
        '<p>' + esc_text(a) + '<i>' + esc_text(c) + '</i>' + esc_text(b) + '</p>', 'text around an include')


def deep(S, depth, n):
    """Nested includes, each showing its variable before or after."""
    v = [S.str('v%d' % i, (0, n), ANY) for i in range(depth)]
    after = [S.choice('after%d' % i, [False, True]) for i in range(depth)]
    srcs = {}

    def ref(i):
        inner = ref(i + 1) if i + 1 < depth else ''
        return '<a>' + (inner + esc(v[i]) if after[i] else esc(v[i]) + inner) + '</a>'
    for i in range(depth):
        inc = '<py:include href="%s.xml"/>' % ('page' if i + 1 == 0 else 'p%d' % (i + 1)) if i + 1 < depth else ''
        x = '${v%d}' % i
        srcs['p%d.xml' % i] = '<a>' + (inc + x if after[i] else x + inc) + '</a>'
    run(S, srcs, dict(('v%d' % i, v[i]) for i in range(depth)), ref(0), 'nested includes', main='p0.xml')


def counted(S, n):
    """Included once per item."""
    items = [S.str('i%d' % k, (0, 1), ANY) for k in range(S.choice('len', list(range(n + 1))))]
    c = S.bool('c')
    v = S.str('v', (0, 1), ANY)
    run(S, {'page.xml': '<p><py:for each="i in items">$i<py:if test="c"><py:include href="part.xml"/></py:if></py:for></p>',
            'part.xml': '<i>$v</i>'}, dict(items=items, c=c, v=v),
        '<p>' + ''.join(esc(i) + ('<i>' + esc(v) + '</i>' if S.is_true(c) else '') for i in items) + '</p>', 'included per item')


def caller_functions(S, place, n):
    """An included template may call the functions of the page; the nearest definition of a name wins."""
    v = S.str('v', (0, n), ANY)
    own = S.choice('own', [False, True])
    inc = '<i>' + ('<py:def function="f(x)">own$x</py:def>' if own else '') + '${f(v)}</i>'
    f = '<py:def function="f(x)">page$x</py:def>'
    page_ = {'first': '<p>' + f + '<py:include href="part.xml"/>${f(v)}</p>',
             'last': '<p><py:include href="part.xml"/>${f(v)}' + f + '</p>',
             'infn': '<p>' + f + '<py:def function="g()"><py:include href="part.xml"/></py:def>${g()}${f(v)}</p>'}[place]
    run(S, {'page.xml': page_, 'part.xml': inc}, dict(v=v),
        '<p><i>' + ('own' if own else 'page') + esc(v) + '</i>page' + esc(v) + '</p>', 'functions of the page')


LIBS = {
    'plain': ('<l><py:def function="f(x)">[$x]</py:def></l>', lambda e: '[' + e + ']'),
    'root': ('<py:def function="f(x)">[$x]</py:def>', lambda e: '[' + e + ']'),
    'two': ('<l><py:def function="f(x)">${g(x)}</py:def><py:def function="g(x)">g$x</py:def></l>', lambda e: 'g' + e),
    'local': ('<l><py:def function="f(x)">${local.g(x)}</py:def><py:def function="g(x)">g$x</py:def></l>', lambda e: 'g' + e),
    'default': ('<l><py:def function="f(x, y=1)">$x$y</py:def></l>', lambda e: e + '1'),
    'context': ('<l><py:def function="f(x)">$x$v</py:def></l>', lambda e: e + e),
    'text': ('<l>text <py:def function="f(x)">[$x]</py:def>$nowhere</l>', lambda e: '[' + e + ']'),
    'include': ('<l><py:def function="f(x)">$x<py:include href="inner.xml"/></py:def></l>', lambda e: e + '<u>' + e + '</u>'),
    'import': ('<l><py:def function="f(x)"><py:import href="other.xml" alias="o"/>${o.h(x)}</py:def></l>', lambda e: 'h' + e),
    'samealias': ('<l><py:def function="f(x)"><py:import href="other.xml" alias="l"/>${l.h(x)}</py:def></l>', lambda e: 'h' + e),
    'nested': ('<l><py:def function="f(x)"><py:def function="h(y)">h$y</py:def>${h(x)}</py:def></l>', lambda e: 'h' + e),
    'mode': ('<!DOCTYPE html><l><py:def function="f(x)"><br/>$x</py:def></l>', lambda e: '<br>' + e),
    'recursive': ('<l><py:def function="f(x, n=2)"><py:if test="n">${f(x, n - 1)}</py:if>$x</py:def></l>', lambda e: e + e + e),
}
USES = {
    'main': ('<p><py:import href="lib.xml" alias="l"/>${l.f(v)}</p>', '<p>%s</p>'),
    'auto': ('<p><py:import href="lib.xml"/>${lib.f(v)}</p>', '<p>%s</p>'),
    'twice': ('<p><py:import href="lib.xml" alias="l"/>${l.f(v)}-${l.f(v)}</p>', '<p>%s-%s</p>'),
    'aliases': ('<p><py:import href="lib.xml" alias="l"/><py:import href="lib.xml" alias="m"/>${l.f(v)}-${m.f(v)}</p>', '<p>%s-%s</p>'),
    'fn': ('<p><py:def function="z()"><py:import href="lib.xml" alias="l"/>${l.f(v)}</py:def>${z()}</p>', '<p>%s</p>'),
    'fromfn': ('<p><py:import href="lib.xml" alias="l"/><py:def function="z()">${l.f(v)}</py:def>${z()}</p>', '<p>%s</p>'),
    'loop': ('<p><py:import href="lib.xml" alias="l"/><py:for each="i in (1, 2)">${l.f(v)}</py:for></p>', '<p>%s%s</p>'),
    'block': ('<p><py:block name="b"><py:import href="lib.xml" alias="l"/>${l.f(v)}</py:block></p>', '<p>%s</p>'),
    'samefn': ('<p><py:import href="lib.xml" alias="l"/><py:def function="g(x)">no</py:def><py:def function="f(x)">F$x</py:def>'
               '${l.f(v)}${f(1)}${g(1)}</p>', '<p>%sF1no</p>'),
    'samefn2': ('<p><py:def function="h(x)">no</py:def><py:import href="lib.xml" alias="l"/>${l.f(v)}${h(1)}</p>', '<p>%sno</p>'),
    'included': ('<p><py:include href="user.xml"/></p>', '<p><x>%s</x></p>'),
    'parent': ('<py:extends href="puser.xml"><py:block name="b">B</py:block></py:extends>', '<r>%sB</r>'),
    'child': ('<py:extends href="par.xml"><py:block name="b"><py:import href="lib.xml" alias="l"/>${l.f(v)}</py:block></py:extends>',
              '<r>%s</r>'),
    'callbody': ('<p><py:import href="lib.xml" alias="l"/><py:def function="z(c)">${c()}</py:def>'
                 '<py:call function="z(%caller)">${l.f(v)}</py:call></p>', '<p>%s</p>'),
}
SUPPORT = {'inner.xml': '<u>$v</u>', 'other.xml': '<o><py:def function="h(x)">h$x</py:def></o>',
           'user.xml': '<x><py:import href="lib.xml" alias="l"/>${l.f(v)}</x>',
           'puser.xml': '<r><py:import href="lib.xml" alias="l"/>${l.f(v)}<py:block name="b">b</py:block></r>',
           'par.xml': '<r><py:block name="b">b</py:block></r>'}


def import_(S, use, lib, how, n):
    """Imported functions show their bodies; nothing of the library's text appears."""
    v = S.str('v', (0, n), ANY)
    src, w = USES[use]
    l, f = LIBS[lib]
    srcs = dict(SUPPORT)
    srcs['lib.xml'] = l
    srcs['page.xml'] = src
    taken = S.choice('taken', [False, True])      # the context has variables of these names
    run(S, srcs, dict(v=v, l='x', m=1, lib=None, o=0) if taken else dict(v=v), w.replace('%s', f(esc(v))), 'imported ' + lib, how)


def libs(S, n):
    """Several libraries with functions of the same names do not mix."""
    v = S.str('v', (0, n), ANY)
    order = S.choice('order', [0, 1])
    names = ['one', 'two']
    srcs = {}
    for k in names:
        srcs[k + '.xml'] = '<l><py:def function="f(x)">%s(${g(x)})</py:def><py:def function="g(x)">%s$x</py:def></l>' % (k, k[0])
    imp = ['<py:import href="%s.xml"/>' % k for k in (names if order == 0 else names[::-1])]
    calls = [S.choice('c%d' % i, names) for i in range(3)]
    srcs['page.xml'] = '<p>' + ''.join(imp) + ''.join('${%s.f(v)}' % c for c in calls) + '</p>'
    run(S, srcs, dict(v=v), '<p>' + ''.join(c + '(' + c[0] + esc(v) + ')' for c in calls) + '</p>', 'two libraries')


def aliasname(S, n):
    """Without an alias the name is the file's name without directory and extension."""
    v = S.str('v', (0, n), ANY)
    path, alias = S.choice('path', [('lib.xml', 'lib'), ('dir/lib.xml', 'lib'), ('a/b/c_d.xml', 'c_d'), ('X1.html', 'X1')])
    run(S, {path: '<l><py:def function="f(x)">[$x]</py:def></l>',
            'page.xml': '<p><py:import href="%s"/>${%s.f(v)}</p>' % (path, alias)}, dict(v=v),
        '<p>[' + esc(v) + ']</p>', 'name of an imported template')


def includename(S):
    """An include defines no variable: names of the page keep their values."""
    v = S.str('v', (0, 1), ANY)
    part = S.choice('part', ['part.xml', 'v.xml'])
    run(S, {'page.xml': '<p><py:include href="%s"/>$v</p>' % part, part: '<i>x</i>'}, dict(v=v),
        '<p><i>x</i>' + esc(v) + '</p>', 'a variable named like an included file')


MIX = {
    'xml<txt': ('page.xml', '<p>[<py:include href="part.txt"/>]</p>', 'part.txt', 't $v\n', lambda v: '<p>[t ' + v + '\n]</p>'),
    'txt<xml': ('page.txt', 'a\n%include "part.xml"\nb\n', 'part.xml', '<i>$v</i>', lambda v: 'a\n<i>' + esc(v) + '</i>b\n'),
    'txt<txt': ('page.txt', 'a\n%include "part.txt"\nb\n', 'part.txt', '<$v>', lambda v: 'a\n<' + v + '>b\n'),
    'txt<txt2': ('page.txt', 'a {%include "part.txt"%} b', 'part.txt', '<$v>', lambda v: 'a <' + v + '> b'),
    'xml:txt': ('page.xml', '<p><py:import href="part.txt" alias="l"/>${l.f(v)}</p>', 'part.txt', '%def f(x)\n<$x>\\\n%end\n',
                lambda v: '<p><' + v + '></p>'),
    'txt:txt': ('page.txt', '%import "part.txt" as l\n${l.f(v)}', 'part.txt', '%def f(x)\n<$x>\\\n%end\n', lambda v: '<' + v + '>'),
    'txt:auto': ('page.txt', '%import "part.txt"\n${part.f(v)}', 'part.txt', '%def f(x)\n<$x>\\\n%end\n', lambda v: '<' + v + '>'),
    'txt:xml': ('page.txt', '%import "part.xml" as l\n${l.f(v)}', 'part.xml', '<l><py:def function="f(x)"><i>$x</i></py:def></l>',
                lambda v: '<i>' + esc(v) + '</i>'),
}


def mixed(S, kind, n):
    """XML and text templates in each other: each escapes by its own rules."""
    v = S.str('v', (0, n), ANY)
    main, src, other, osrc, f = MIX[kind]
    run(S, {main: src, other: osrc}, dict(v=v), f(v), 'mixed ' + kind, main=main)


def shows(S, group, n):
    """Functions of text templates that show values of any kind, in content and in attributes of an XML page."""
    v, s, name = pick(S, n, ANY, group)
    use = S.choice('use', ['<p>${l.f(v)}</p>', '<p a="${l.f(v)}"/>', '<p a="x${l.f(v)}-${l.f(v)}"/>'])
    srcs = {'part.txt': '%def f(x)\n<$x${1}>\\\n%end\n', 'page.xml': '<r><py:import href="part.txt" alias="l"/>' + use + '</r>'}
    t = esc('<' + s + '1>')
    w = {'<p>${': '<p><' + s + '1></p>', '<p a="x': '<p a="x' + t + '-' + t + '"/>'}
    run(S, srcs, dict(v=v), '<r>' + w.get(use[:5], w.get(use[:7], '<p a="' + t + '"/>')) + '</r>', 'a value made as ' + name)


def autoescaped(S, n):
    """With autoescape_text, text templates escape too."""
    v = S.str('v', (0, n), ANY)
    fs = S.fs()
    fs.write('part.txt', 't<$v>${v}', 1)
    fs.write('page.xml', '<p><py:include href="part.txt"/>$v</p>', 1)
    on = S.choice('on', [True, False])
    out = S.kajiki.FileLoader(fs.root, autoescape_text=on).load('page.xml')(dict(v=v)).render()
    x = esc(v) if on else v
    S.eq(out, '<p>t<' + x + '>' + x + esc(v) + '</p>', 'autoescape_text')


def missing(S, what):
    """What cannot be found is an error when it is needed, and only then."""
    c = S.bool('c')
    v = S.str('v', (0, 1), ANY)
    fs = S.fs()
    fs.write('page.xml', '<p>$v<py:if test="c"><py:%s href="nope.xml"/></py:if></p>' % what, 1)
    T = S.kajiki.FileLoader(fs.root).load('page.xml')
    try:
        out = T(dict(c=c, v=v)).render()
    except (IOError, OSError):
        S.check(c, 'refused although not needed')
        return
    S.check(not c, 'a missing template was ignored')
    S.eq(out, '<p>' + esc(v) + '</p>', 'not needed')


def repeat(S, n):
    """Renders of the parts and of the page in any order do not influence each other."""
    a = S.str('a', (0, n), ANY)
    srcs = {'page.xml': '<p><py:import href="lib.xml" alias="l"/>${l.f(v)}<py:include href="part.xml"/></p>',
            'part.xml': '<i><py:def function="f(x)">i$x</py:def>${f(v)}</i>',
            'lib.xml': '<l><py:def function="f(x)">l$x</py:def>${f(v)}</l>'}
    L = page(S, srcs)
    for i in range(3):
        k = S.choice('k%d' % i, ['page', 'part', 'lib'])
        v = a + str(i)
        e = esc(a) + str(i)
        w = {'page': '<p>l' + e + '<i>i' + e + '</i></p>', 'part': '<i>i' + e + '</i>', 'lib': '<l>l' + e + '</l>'}[k]
        S.eq(L.load(k + '.xml')(dict(v=v)).render(), w, 'render %d' % i)


def plan(tier):
    big = tier != 'quick'
    n = 3 if big else 2
    P = []
    for spot in sorted(SPOTS):
        for part in sorted(PARTS):
            if not big and spot not in ('plain', 'loop', 'def', 'block', 'switch') and part not in ('value', 'switch', 'with', 'samefn'):
                continue
            P.append(('include', dict(spot=spot, part=part, how='file', n=n if spot == 'plain' else 1)))
    P += [('include', dict(spot='plain', part=p, how='mock', n=1)) for p in sorted(PARTS)]
    P += [('around', dict(n=n)), ('counted', dict(n=3)), ('libs', dict(n=1)), ('aliasname', dict(n=n)), ('includename', {}),
          ('autoescaped', dict(n=n)), ('repeat', dict(n=1))]
    P += [('deep', dict(depth=d, n=1)) for d in (1, 2, 3, 4)]
    P += [('caller_functions', dict(place=p, n=n)) for p in ('first', 'last', 'infn')]
    for use in sorted(USES):
        for lib in sorted(LIBS):
            if not big and use not in ('main', 'samefn', 'included', 'parent') and lib not in ('plain', 'two', 'include', 'import'):
                continue
            P.append(('import_', dict(use=use, lib=lib, how='file', n=n if use == 'main' else 1)))
    P += [('import_', dict(use=u, lib='two', how='mock', n=1)) for u in sorted(USES)]
    P += [('mixed', dict(kind=k, n=n)) for k in sorted(MIX)]
    P += [('shows', dict(group=g, n=1)) for g in range(8)]
    P += [('missing', dict(what=w)) for w in ('include', 'import')]
    P += [('compose', dict(n=m, shape=s)) for m, s in ((12, 'deep'), (40, 'many'), (70, 'loop'), (30, 'imports'))]
    return P
