"""What is extracted for translation is what is looked up at rendering."""
import io

from symkj.api import ANY, LOWER, XML, XMLNOCR, chars, without
from props.ref import esc, esc_text
from props.makings import pick
from props.c05 import POS, fill, seen
from props.large import messages

BOUNDS = ('static text of 0..3 (thorough 4) arbitrary XML characters before, between and after expressions, in 17 positions, 9 shapes of '
          'text; translations of 0..3 arbitrary characters; indentation and line breaks of 0..2 characters; the options strip_text, mode, is_fragment, '
          'cdata_scripts and 5 ways of providing gettext; inheritance, inclusion and import; 16 shapes of Python expressions for extract_python')
OUTSIDE = ('Babel itself (run as it is); the order of the messages of different functions of a template; text templates (not extracted by kajiki); '
           'gettext calls in directive attributes and Python blocks; how $$ splits a text (only that extraction and rendering agree)')

TXT = without(XMLNOCR, '$')


def src(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def wrap(log):
    def gettext(s):
        log.append(s)
        return '{' + s + '}'
    return gettext


def extract(S, text, **options):
    kw = options.pop('keywords', [])
    return [tuple(m) for m in S.kajiki.i18n.extract(io.BytesIO(text.encode('utf-8')), kw, [], options)
            if m[2] is not None]      # Babel drops calls without a literal itself


def pieces(parts):
    """parts: strings (static text) and (output,) of expressions, all of one run of text.
    -> output with the messages in braces, the messages with what precedes each."""
    n = len(parts)
    first = 0
    out, found, before = '', [], ''
    for i, p in enumerate(parts):
        if isinstance(p, tuple):
            out = out + p[0]
            before = before + p[1]
            continue
        lead = tail = ''
        m = p
        if i == 0:
            m = p.lstrip()
            lead = p[:len(p) - len(m)]
        if i == n - 1:
            k = m.rstrip()
            tail = m[len(k):]
            m = k
        if not m.strip():
            out = out + esc_text(p)
        else:
            found.append((esc_text(m), before + lead))
            out = out + lead + '{' + esc_text(m) + '}' + tail
        before = before + p
    return out, found


def build(S, shape, n):
    """-> template text, parts"""
    a = S.str('a', (0, n), TXT)
    V = ('V', '$v')
    if shape == 'text':
        return src(a), [a]
    if shape == 'named':
        b = S.str('b', (0, 1), without(TXT, '._' + 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' + u'\u0130\u0131\u017f\u212a'))
        return src(a) + '$v' + src(b), [a, V, b]
    b = S.str('b', (0, n), TXT)
    E = ('V', '${v}')
    if shape == 'braced':
        return src(a) + '${v}' + src(b), [a, E, b]
    if shape == 'two':
        c = S.str('c', (0, 1), TXT)
        return src(a) + '${v}' + src(c) + '${v}' + src(b), [a, E, c, E, b]
    if shape == 'first':
        return '${v}' + src(b), ['', E, b]
    if shape == 'lines':
        return src(a) + '${(v +\n w)}' + src(b), [a, ('VW', '${(v +\n w)}'), b]
    if shape == 'adjacent':
        return src(a) + '${v}${w}' + src(b), [a, E, ('W', '${w}'), b]
    raise KeyError(shape)


CTX = dict(v='V', w='W')


def text(S, pos, shape, n):
    """One text in one position: messages, their lines, what is looked up and what comes out."""
    t, parts = build(S, shape, n)
    pat, want = POS[pos]
    nl = S.str('nl', (0, 2), chars('\n '))
    pat = nl + pat if pos != 'pre' else pat
    pat = pat.lstrip() if not nl else pat
    S.assume(True)
    doc = fill('<x>' + nl + POS[pos][0] + '</x>', t)
    log = []
    out = S.kajiki.XMLTemplate(doc)(dict(CTX, gettext=wrap(log))).render()
    head = '<x>' + nl + POS[pos][0].split('%s')[0]
    if pos == 'pre':
        # the text is part of a longer run
        first = '\n' + parts[0]
        last = parts[-1] + ' \n' if len(parts) > 1 else first + ' \n'
        parts = [first] + parts[1:-1] + [last] if len(parts) > 1 else [last]
        head = '<x>' + nl + '<pre>'
        want = '<pre>%s</pre>'
    if pos == 'comment':
        # without the comment the two would be one text
        pass
    shown, found = pieces(parts)
    w = want or POS[pos][0]
    if pos == 'else':
        pass
    if pos in ('expr', 'afterexpr'):
        raise KeyError(pos)
    if pos in ('only', 'kid') and not ''.join([p if not isinstance(p, tuple) else 'x' for p in parts]):
        w = {'only': '<p/>', 'kid': '<p><b><i/></b></p>'}[pos]
    if pos == 'pre':
        expect = '<x>' + nl + '<pre>' + shown + '</pre></x>'
    else:
        expect = '<x>' + nl + fill(w, shown) + '</x>'
    S.eq(out, expect, 'translated output')
    got = extract(S, doc)
    if pos == 'else':
        got = [m for m in got if m[2] != 'x' or any([f == 'x' for f, _ in found])]
        S.assume(not any([f == 'x' for f, _ in found]))
    times = 2 if pos in ('comment', ) else 1
    S.check(len(got) == len(found) * times, 'number of messages', got=len(got), want=len(found) * times)
    for i, (m, before) in enumerate(found * times):
        g = got[i]
        S.eq(g[2], m, 'message %d' % i)
        S.check(g[1] == '_' and list(g[3]) == [], 'shape of the message')
        if i < len(found):
            S.check(g[0] == 1 + (head + before).count('\n'), 'line of message %d' % i, got=g[0])
    for m in log:
        S.check(any([m == g[2] for g in got]), 'looked up but not extracted')


def other(S, where, n):
    """What is not text is not translated."""
    a = S.str('a', (1, n), without(TXT, '&<>"\'-]'))
    if where == 'script':
        doc, want = '<x><script>' + a + '</script></x>', '<x><script>/*<![CDATA[*/' + a + '/*]]>*/</script></x>'
    elif where == 'style':
        doc, want = '<x><style>' + a + '${1}' + a + '</style></x>', '<x><style>/*<![CDATA[*/' + a + '1' + a + '/*]]>*/</style></x>'
    elif where == 'attr':
        S.assume('\n' not in a and '\t' not in a)
        doc = want = '<x t="' + a + '"/>'
    elif where == 'attrexpr':
        S.assume('\n' not in a and '\t' not in a)
        doc, want = '<x t="' + a + '${1}"/>', '<x t="' + a + '1"/>'
    elif where == 'comment':
        S.assume(a[0] != '!')
        doc, want = '<x><!--' + a + '--></x>', '<x><!-- ' + a + ' --></x>'
    elif where == 'hidden':
        doc, want = '<x><!--!' + a + '--></x>', '<x></x>'
    elif where == 'cdata':
        doc = want = '<x><![CDATA[' + a + ']]></x>'
        # CDATA content is text like any other when it comes to translation
        log = []
        out = S.kajiki.XMLTemplate(doc)(dict(gettext=wrap(log))).render()
        got = extract(S, doc)
        S.check(len(got) == len(log), 'as many')
        for g, m in zip(got, log):
            S.eq(g[2], m, 'same message')
        return
    elif where == 'space':
        a = S.str('w', (1, n), chars(u' \n\t\xa0\u2003'))
        doc = '<x>' + a + '<b/>' + a + '${1}' + a + '</x>'
        want = '<x>' + a + '<b/>' + a + '1' + a + '</x>'
    elif where == 'value':
        doc, want = '<x>${v}$v<b py:content="v"/><py:for each="i in [v]">$i</py:for></x>', None
        want = '<x>' + esc(a) * 2 + '<b>' + esc(a) + '</b>' + esc(a) + '</x>'
    elif where == 'doctype':
        doc, want = '<!DOCTYPE ' + 'html><x/>', '<!DOCTYPE html>\n<x></x>'
    log = []
    out = S.kajiki.XMLTemplate(doc)(dict(v=a, gettext=wrap(log))).render()
    S.eq(out, want, 'not translated')
    S.check(log == [] and extract(S, doc) == [], 'no messages')


def translation(S, n, how):
    """The translation appears as it is, whatever it is, and depends on nothing but the message."""
    t = S.str('t', (0, n), ANY)
    u = S.str('u', (0, n), ANY)

    def g(s):
        return t if s == 'one' else u if s == 'two' else s
    if how == 'plain':
        doc, want = '<x><b>one</b> two </x>', '<x><b>' + t + '</b> ' + u + ' </x>'
    elif how == 'expr':
        doc, want = '<x>one${v}two</x>', '<x>' + t + 'V' + u + '</x>'
    elif how == 'loop':
        doc, want = '<x><py:for each="i in (1, 2)">one<b>two</b></py:for></x>', '<x>' + (t + '<b>' + u + '</b>') * 2 + '</x>'
    elif how == 'def':
        doc = '<x><py:def function="f(a)">one${a}two</py:def>${f(1)}${f(2)}</x>'
        want = '<x>' + t + '1' + u + t + '2' + u + '</x>'
    elif how == 'with':
        doc, want = '<x><py:with vars="a=1; b=2">one$a</py:with>two</x>', '<x>' + t + '1' + u + '</x>'
    elif how == 'strip':
        doc, want = '<x><b py:strip="c">one</b>two</x>', None
        c = S.bool('c')
        out = S.kajiki.XMLTemplate(doc)(dict(c=c, gettext=g)).render()
        S.eq(out, '<x>' + (t if c else '<b>' + t + '</b>') + u + '</x>', 'translation')
        return
    elif how == 'if':
        c = S.bool('c')
        doc = '<x><b py:if="c">one</b><py:else>two</py:else></x>'
        out = S.kajiki.XMLTemplate(doc)(dict(c=c, gettext=g)).render()
        S.eq(out, '<x>' + ('<b>' + t + '</b>' if c else u) + '</x>', 'translation')
        return
    elif how == 'call':
        doc, want = '<x>${_("one")}|${gettext("two")}</x>', '<x>' + esc(t) + '{|}' + esc(u) + '</x>'
        doc = doc.replace('|', '<i/>')
        want = '<x>' + esc(t) + '<i/>' + esc(u) + '</x>'
    elif how == 'attrcall':
        doc = '<x t="${_(\'one\')}"/>'
        want = '<x t="' + esc(t) + '"/>'
    elif how == 'block':
        doc, want = '<x><py:block name="k">one</py:block><b py:block="m">two</b></x>', '<x>' + t + '<b>' + u + '</b></x>'
    elif how == 'html':
        doc, want = '<p>one<br/>two</p>', '<p>' + t + '<br>' + u + '</p>'
        out = S.kajiki.XMLTemplate(doc, mode='html', is_fragment=True)(dict(gettext=g)).render()
        S.eq(out, want, 'translation')
        return
    out = S.kajiki.XMLTemplate(doc)(dict(v='V', gettext=g)).render()
    S.eq(out, want, 'translation')


def lazy(S, group, n):
    """Translations may be objects that turn into text when they are shown."""
    t, s, name = pick(S, n, LOWER, group)
    doc = S.choice('doc', ['<x>one</x>', '<x><py:def function="f()">one</py:def>${f()}</x>', '<x><py:def function="f()"><b>one</b></py:def>${f()}</x>',
                           '<x><py:def function="f()">one</py:def><i a="${f()}" py:attrs="dict(b=f())"/></x>', '<x>one$v</x>'])
    out = S.kajiki.XMLTemplate(doc)(dict(v='V', gettext=lambda m: t)).render()
    w = '<b>' + s + '</b>' if '<b>' in doc else '<i a="' + s + '" b="' + s + '"/>' if '<i' in doc else s + 'V' if '$v' in doc else s
    S.eq(out, '<x>' + w + '</x>', 'a translation made as ' + name)


def provide(S, way, n):
    """Every way of providing gettext reaches every part of a page."""
    m = S.str('m', (1, n), without(XMLNOCR, '$&<>'))
    S.assume(m == m.strip())
    t = S.str('t', (0, n), ANY)

    def g(s):
        return t if s == m else '?'

    def no(s):
        return '!'
    K = S.kajiki
    doc = '<x>' + m + '<b py:block="k">' + m + '</b><py:def function="f()">' + m + '</py:def>${f()}${_(s)}</x>'
    want = '<x>' + t + '<b>' + t + '</b>' + t + esc(t) + '</x>'
    if way == 'context':
        out = K.XMLTemplate(doc, base_globals=dict(gettext=no))(dict(gettext=g, s=m)).render()
    elif way == 'base':
        out = K.XMLTemplate(doc, base_globals=dict(gettext=g))(dict(s=m)).render()
    elif way == 'loader':
        fs = S.fs()
        fs.write('a.html', doc, 1)
        out = K.FileLoader([fs.path('')], base_globals=dict(gettext=g)).import_('a.html')(dict(s=m)).render()
    elif way in ('module', 'modulelate'):
        old = K.i18n.gettext
        try:
            if way == 'module':
                K.i18n.gettext = g
                tpl = K.XMLTemplate(doc)
            else:
                tpl = K.XMLTemplate(doc)
                K.i18n.gettext = g
            out = tpl(dict(s=m)).render()
        finally:
            K.i18n.gettext = old
    elif way == 'default':
        out = K.XMLTemplate(doc)(dict(s=m)).render()
        want = '<x>' + m + '<b>' + m + '</b>' + m + esc(m) + '</x>'
    S.eq(out, want, 'gettext from ' + way)


def combined(S, how, n):
    """One gettext of the context serves all the templates of a page, for exactly the extracted messages."""
    a = S.str('a', (1, n), without(XMLNOCR, '$&<>'))
    b = S.str('b', (1, n), without(XMLNOCR, '$&<>'))
    S.assume(a == a.strip() and b == b.strip())
    K = S.kajiki
    if how == 'extends':
        tpls = {'p': '<x>' + a + '<py:block name="k">' + a + '</py:block></x>', 'm': '<py:extends href="p"><py:block name="k">' + b + '</py:block></py:extends>'}
        want = '<x>{' + a + '}{' + b + '}</x>'
    elif how == 'super':
        tpls = {'p': '<x><py:block name="k">' + a + '</py:block></x>',
                'm': '<py:extends href="p"><py:block name="k">' + b + '${parent_block()}</py:block></py:extends>'}
        want = '<x>{' + b + '}{' + a + '}</x>'
    elif how == 'twice':
        tpls = {'p': '<x><py:block name="k">' + a + '</py:block></x>',
                'q': '<py:extends href="p"><py:def function="f()">' + a + '</py:def></py:extends>',
                'm': '<py:extends href="q"><py:block name="k">' + b + '${f()}</py:block></py:extends>'}
        want = '<x>{' + b + '}{' + a + '}</x>'
    elif how == 'include':
        tpls = {'p': '<y>' + b + '</y>', 'm': '<x>' + a + '<py:include href="p"/>' + a + '</x>'}
        want = '<x>{' + a + '}<y>{' + b + '}</y>{' + a + '}</x>'
    elif how == 'import':
        tpls = {'p': '<y><py:def function="f()">' + b + '</py:def></y>', 'm': '<x><py:import href="p" alias="q"/>' + a + '${q.f()}</x>'}
        want = '<x>{' + a + '}{' + b + '}</x>'
    elif how == 'includes':
        tpls = {'p': '<y>' + b + '</y>', 'q': '<z><py:include href="p"/>' + a + '</z>', 'm': '<x><py:include href="q"/></x>'}
        want = '<x><z><y>{' + b + '}</y>{' + a + '}</z></x>'
    elif how == 'call':
        tpls = {'m': '<x><py:def function="f(c)">' + a + '${c()}</py:def><py:call function="f(%caller)">' + b + '</py:call></x>'}
        want = '<x>{' + a + '}{' + b + '}</x>'
    log = []
    loader = K.MockLoader(dict((k, K.XMLTemplate(v)) for k, v in tpls.items()))
    out = loader.import_('m')(dict(gettext=wrap(log))).render()
    S.eq(out, want, 'page')
    got = [m[2] for v in tpls.values() for m in extract(S, v)]
    S.check(all([any([m == g for g in got]) for m in log]), 'looked up but not extracted')
    S.check(all([m == a or m == b for m in got]), 'messages')


def options(S, n, strip, mode, fragment, cdata):
    """Whatever the options, rendering looks up messages that default extraction found."""
    t, parts = build(S, 'braced', n)
    nl = S.str('nl', (0, 2), chars('\n '))
    doc = '<html>' + nl + '<p>' + t + '</p>' + nl + '<script>s</script><br/>' + nl + 'z' + nl + '</html>'
    log = []
    S.kajiki.XMLTemplate(doc, strip_text=strip, mode=mode, is_fragment=fragment, cdata_scripts=cdata)(dict(CTX, gettext=wrap(log))).render()
    _, found = pieces(parts)
    want = [m for m, _ in found] + ['z']
    lines = [1 + ('<html>' + nl + '<p>' + b).count('\n') for _, b in found] + [1 + (doc.split('<br/>')[0] + nl).count('\n')]
    S.check(log == want, 'looked up', got=log)
    for opt in ({}, dict(strip_text=strip), dict(mode=mode or 'xml'), dict(is_fragment=fragment)):
        got = extract(S, doc, **opt)
        S.check([g[2] for g in got] == want, 'extracted with %r' % (opt,))
        S.check([g[0] for g in got] == lines, 'lines with %r' % (opt,), got=[g[0] for g in got])


def dollars(S, n):
    """However $$ and lone $ split a text, extraction and rendering agree."""
    a = S.str('a', (0, n), chars('a$ \n9'))
    S.assume('$a' not in a)
    doc = '<x>b' + a + '</x>'
    log = []
    out = S.kajiki.XMLTemplate(doc)(dict(gettext=wrap(log))).render()
    got = [m[2] for m in extract(S, doc)]
    S.check(got == log, 'messages', got=got, log=log)
    plain = S.kajiki.XMLTemplate(doc)().render()
    S.eq(out.replace('{', '').replace('}', ''), plain, 'all text in place')


EXPRS = [
    ("${_('hi')}", [('_', 'hi')]), ("${gettext('hi')}", [('gettext', 'hi')]), ('${_("hi")}', [('_', 'hi')]),
    ("${ _('hi') }", [('_', 'hi')]), ("${_('hi') + _('ho')}", [('_', 'hi'), ('_', 'ho')]), ("${v.replace('x', _('hi'))}", [('_', 'hi')]),
    ("${_('a}b')}", [('_', 'a}b')]), ("${_('a' 'b')}", [('_', 'ab')]), ("${v}", []), ("$v", []), ("${'hi'}", []), ("${[_('hi')][0]}", [('_', 'hi')]),
    ("${_(v)}", []), ("${_('hi') if v else _('ho')}", [('_', 'hi'), ('_', 'ho')]), ("${_(u'\xe9')}", [('_', u'\xe9')]), ("${_('&lt;')}", [('_', '<')]),
]


def python(S, i, place, n):
    """With extract_python the literal messages of expressions are found too, on their lines."""
    e, want = EXPRS[i]
    a = S.str('a', (0, n), without(TXT, '&<>'))
    nl = S.str('nl', (0, 2), chars('\n '))
    if place == 'text':
        S.assume(a == a.strip())
        if e == '$v':
            S.assume(not a or a[0] in ' -\n')
        doc, pre = '<x>' + nl + '<b>' + a + e + a + '</b></x>', '<x>' + nl + '<b>' + a
        texts = [a, a] if a.strip() else []
    elif place == 'attr':
        if '"' in e:
            e = e.replace('"', '&quot;')
        doc, pre, texts = '<x>' + nl + '<b t="' + e + '"/></x>', '<x>' + nl, []
        S.assume(a == '')
    elif place == 'def':
        doc, pre, texts = '<x>' + nl + '<py:def function="f()">' + a.replace('\n', '') + '<b/>' + e + '</py:def></x>', '<x>' + nl, None
    elif place == 'for':
        doc, pre, texts = '<x>' + nl + '<b py:for="i in v">' + e + '</b></x>', '<x>' + nl, []
        S.assume(a == '')
    got = extract(S, doc, extract_python=True, keywords=['_', 'gettext'])
    S.assume(a not in [w for _, w in want])
    line = 1 + pre.count('\n')
    S.check([tuple(m[1:3]) for m in got if m[0] == line and m[2] in [w for _, w in want]] == want, 'messages of the expression', got=got)
    if texts is not None:
        S.check(len(got) == len(want) + len(texts), 'nothing else', got=got)
    plain = extract(S, doc)
    S.check(not any([m[2] == w for m in plain for _, w in want if w != a]), 'only on request')
    # what the expression looks up is among the extracted
    log = []
    S.kajiki.XMLTemplate(doc)(dict(v='x', gettext=wrap(log))).render()
    S.check(all([any([m == g[2] for g in got]) for m in log if m != 'x']), 'looked up but not extracted', log=log)


SHAPES = ('text', 'named', 'braced', 'two', 'first', 'lines', 'adjacent')


def plan(tier):
    big = tier != 'quick'
    P = []
    for pos in sorted(POS):
        if pos in ('expr', 'afterexpr', 'with', 'comment'):
            continue
        for sh in SHAPES:
            if big or sh in ('text', 'braced') or pos in ('only', 'for', 'kid'):
                P.append(('text', dict(pos=pos, shape=sh, n=(3 if sh == 'text' else 2) if big else (2 if sh == 'text' else 1))))
    for w in ('script', 'style', 'attr', 'attrexpr', 'comment', 'hidden', 'cdata', 'space', 'value', 'doctype'):
        P.append(('other', dict(where=w, n=3 if big else 2)))
    for h in ('plain', 'expr', 'loop', 'def', 'with', 'strip', 'if', 'call', 'attrcall', 'block', 'html'):
        P.append(('translation', dict(how=h, n=4 if big else 3)))
    P += [('lazy', dict(group=g, n=1)) for g in range(8)]
    P += [('provide', dict(way=w, n=3 if big else 2)) for w in ('context', 'base', 'loader', 'module', 'modulelate', 'default')]
    P += [('combined', dict(how=h, n=2 if big else 1)) for h in ('extends', 'super', 'twice', 'include', 'import', 'includes', 'call')]
    for s in (True, False):
        for m in (None, 'xml', 'html', 'html5'):
            for f in (True, False):
                for c in (True, False):
                    if big or (f != c) or m is None:
                        P.append(('options', dict(n=2 if big else 1, strip=s, mode=m, fragment=f, cdata=c)))
    P += [('dollars', dict(n=4 if big else 3))]
    for i in range(len(EXPRS)):
        for p in ('text', 'attr', 'def', 'for'):
            P.append(('python', dict(i=i, place=p, n=1)))
    P += [('messages', dict(n=70))]
    return P
