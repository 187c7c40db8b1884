"""Python blocks, built-in functions and where names come from."""
from symkj.api import ANY, LOWER, IDENT, chars, without
from props.ref import esc
from props.large import python as large_python

BOUNDS = ('values of 0..3 arbitrary characters; indentation of 0..3 blanks and tabs, 0..2 blank lines with 0..2 blanks in Python blocks of 22 '
          'shapes in 9 places; presence, absence, None and falsity of context variables (symbolic choices) for defined and value_of, for names '
          'of 1..2 characters; 130 characters and escapes inside string literals; blocks of text templates in 10 forms; blocks without statements in 12 places; blocks that yield; all combinations of a name in base_globals, the context and the built-ins; XML and text templates')
OUTSIDE = ('indented blocks of several lines that do not start with # (XML drops the first indentation); assigning in a block a name that the same function also reads from the context before (Python makes it local); names starting with two underscores; '
           'Python 2 syntax')

WS = chars(' \t')


def xt(S, src, ctx=None, **kw):
    return S.kajiki.XMLTemplate(src, **kw)(ctx or {}).render()


# name -> (lines (relative indentation by spaces), expression to show, reference)
BLOCKS = {
    'assign': (['w = v'], lambda v: v),
    'two': (['w = v', 'w = w + w'], lambda v: v + v),
    'if': (['if len(v) > 1:', '    w = v', 'else:', '    w = v + "-"'], lambda v: v if len(v) > 1 else v + '-'),
    'for': (['w = ""', 'for i in (1, 2):', '    w = w + v', 'w = w + "."'], lambda v: v + v + '.'),
    'nested': (['w = ""', 'for i in (1, 2):', '    if i == 2:', '        w += v', '    w += "|"'], lambda v: '|' + v + '|'),
    'def': (['def h(a):', '    b = a + "!"', '    return b', 'w = h(v)'], lambda v: v + '!'),
    'class': (['class C(object):', '    def m(self, a):', '        return a + "c"', 'w = C().m(v)'], lambda v: v + 'c'),
    'try': (['try:', '    w = v[5]', 'except IndexError:', '    w = v'], lambda v: v),
    'comment': (['# a comment', 'w = v  # another'], lambda v: v),
    'string': (['w = v + "  # no comment"'], lambda v: v + '  # no comment'),
    'lt': (['w = v if 1 < 2 else "no"'], lambda v: v), 'amp': (['w = v + "&amp;<>"'], lambda v: v + '&amp;<>'),
    'dollar': (['w = v + "$v ${v} $$"'], lambda v: v + '$v ${v} $$'), 'percent': (['w = v + "%s %d"'], lambda v: v + '%s %d'),
    'semi': (['w = v; w = w + ";"'], lambda v: v + ';'), 'paren': (['w = (v +', '     v)'], lambda v: v + v),
    'tuple': (['w, q = v, 1'], lambda v: v), 'import': (['import string', 'w = v + string.digits'], lambda v: v + '0123456789'),
    'lambda': (['f = lambda: v', 'w = f()'], lambda v: v), 'closure': (['def g():', '    return v', 'w = g()'], lambda v: v),
    'brace': (['w = {"}": v}["}"]'], lambda v: v), 'quote': (['w = v + "?"', "w = w + '\"'"], lambda v: v + '?"'),
}

PLACES = {
    'main': ('<x>@$w</x>', '<x>%s</x>'), 'before': ('<x>a@b${w}c</x>', '<x>ab%sc</x>'), 'if': ('<x><py:if test="True">@$w</py:if></x>', '<x>%s</x>'),
    'for': ('<x><py:for each="k in (1, 2)">@$w</py:for></x>', '<x>%s%s</x>'), 'def': ('<x><py:def function="fn()">@$w</py:def>${fn()}</x>', '<x>%s</x>'),
    'block': ('<x><py:block name="k">@$w</py:block></x>', '<x>%s</x>'), 'with': ('<x><py:with vars="z=1">@$w</py:with></x>', '<x>%s</x>'),
    'case': ('<x><py:switch test="1"><py:case value="1">@$w</py:case></py:switch></x>', '<x>%s</x>'),
    'later': ('<x>@<b><i>$w</i><u a="$w"/></b></x>', '<x><b><i>%s</i><u a="%s"/></b></x>'),
}


def fill(pat, s):
    parts = pat.split('%s')
    out = parts[0]
    for p in parts[1:]:
        out = out + s + p
    return out


def python(S, shape, place, pi, lay, n):
    """Python code with any indentation does what it does in Python."""
    lines, ref = BLOCKS[shape]
    v = S.str('v', (0, n), ANY)
    if lay == 'one':
        code = ' ' + lines[0]
    elif lay == 'block':
        ind = S.str('ind', (0, 3), WS)
        code = ' #\n' + ''.join([ind + l + '\n' for l in lines])
    elif lay == 'blank':
        sp = S.str('sp', (0, 3), chars(' '))
        code = ' #\n' + sp + '\n  ' + lines[0] + '\n' + sp + '\n' + ''.join(['  ' + l + '\n' for l in lines[1:]])
    elif lay == 'first':
        code = ' ' + lines[0] + '\n' + ''.join([l + '\n' for l in lines[1:]])
    elif lay == 'flush':
        code = '\n' + S.str('nl', (0, 2), chars('\n')) + ''.join([l + '\n' for l in lines]) + S.str('tail', (0, 2), WS)
    elif lay == 'tail':
        code = ' #\n  ' + '\n  '.join(lines) + '\n' + S.str('tail', (0, 2), WS)
    src, want = PLACES[place]
    out = xt(S, src.replace('@', '<?%s%s?>' % ('py' if pi == 'py' else 'python', '@')).replace('@', code), dict(v=v))
    S.eq(out, fill(want, esc(ref(v))), 'python block')


def multistring(S, place, n):
    """A string that spans several lines is the string that was written."""
    v = S.str('v', (0, n), ANY)
    src, want = PLACES[place]
    out = xt(S, src.replace('@', '<?py w = """a\n  b\nc""" + v\n?>'), dict(v=v))
    S.eq(out, fill(want, 'a\n  b\nc' + esc(v)), 'string of several lines')


def literal(S, where):
    """The characters of a string in a block are those written."""
    c = S.choice('c', [chr(i) for i in range(32, 127) if chr(i) not in '\\"?'] + ['\t', '\x7f', '\x85', '\xa0', '\u1680', '\u2003', '\u2028', '\u2029', '\u3000', '\ufeff',
                            '\xe9', '\u20ac', '\U0001f600', '  ', '\t\t', '    ', '%s', '%(v)s', '{}', '{v}', '$v', '${v}', '$$', '&amp;', '&#65;', '<!--', ']]>', '# x', '#\\n',
                            '\\n', '\\\\', '\\x41', '\\u0041', "'''", '\\"'])
    got = eval('"' + c + '"')
    v = S.str('v', (0, 1), ANY)
    if where == 'line':
        out = xt(S, '<x><?py w = "a' + c + 'b" + v?>$w</x>', dict(v=v))
    elif where == 'block':
        out = xt(S, '<x><?py #\n  if 1:\n    w = "a' + c + 'b" + v\n  else:\n    pass\n?>$w</x>', dict(v=v))
    elif where == 'module':
        out = xt(S, '<x><?py %k = "a' + c + 'b"\n?>${k + v}</x>', dict(v=v))
    S.eq(out, '<x>a' + esc(got) + 'b' + esc(v) + '</x>', 'characters of a literal')


EMPTY = ['<?py ?>', '<?py # nothing?>', '<?py #\n  # nothing\n?>', '<?py pass?>', '<?py\n\n?>', '<?py #\n?>']


def nothing(S, place):
    """Blocks with no statement at all."""
    code = S.choice('code', EMPTY)
    v = S.str('v', (0, 1), ANY)
    src, want = {'main': ('<x>@</x>', '<x></x>'), 'if': ('<x><py:if test="v">@</py:if>$v</x>', '<x>%s</x>'), 'else': ('<x><py:if test="v">@</py:if><py:else>@@</py:else>$v</x>', '<x>%s</x>'),
                 'for': ('<x><py:for each="i in v">@</py:for>$v</x>', '<x>%s</x>'), 'def': ('<x><py:def function="f()">@</py:def>${f()}$v</x>', '<x>%s</x>'),
                 'block': ('<x><py:block name="b">@</py:block>$v</x>', '<x>%s</x>'), 'case': ('<x><py:switch test="v"><py:case value="v">@</py:case></py:switch>$v</x>', '<x>%s</x>'),
                 'call': ('<x><py:def function="f(c)">[${c()}]</py:def><py:call args="" function="f(%caller)">@</py:call>$v</x>', '<x>[]%s</x>'),
                 'with': ('<x><py:with vars="a=v">@</py:with>$v</x>', '<x>%s</x>'), 'attr': ('<x><b py:if="v">@</b>$v</x>', None), 'strip': ('<x><b py:strip="v">@</b></x>', None),
                 'inner': ('<x><py:def function="f()"><py:def function="g()">@</py:def>${g()}$v</py:def>${f()}</x>', '<x>%s</x>')}[place]
    if place == 'main':
        want = '<x></x>'
    elif place == 'attr':
        want = '<x><b></b>%s</x>' if v else '<x>%s</x>'
    elif place == 'strip':
        want = '<x></x>' if v else '<x><b></b></x>'
    S.eq(xt(S, src.replace('@', code), dict(v=v)), fill(want, esc(v)), 'a block without statements')


TPY = {'line': '%py w = "a@b" + v\n$w', 'inline': '{%py w = "a@b" + v%}$w', 'block': '%py\nw = "a@b" + v\n%end\n$w', 'indent': '%py\n  if 1:\n    w = "a@b" + v\n%end\n$w',
       'join': '{%py%}\\\n  w = "a@b" + v\n{%end%}\\\n$w', 'inlineblock': '{%py%}w = "a@b" + v{%end%}$w', 'module': '%py% k = "a@b"\n${k + v}',
       'modblock': '%py%\n  k = "a@b"\n  import re\n%end\n${k + v}', 'modinline': '{%py%%}k = "a@b"{%end%}${k + v}', 'modjoin': '{%py%%}\\\n k = "a@b"\n{%end%}\\\n${k + v}'}


def textual(S, form):
    """Python blocks of text templates, with any characters in their strings."""
    c = S.choice('c', ['', ' ', '\t', '#', '%', '% ', "'", '{', '}', '<&>', '\\\\', '\\n', '\\t', '\\x41', "\\'", '\\"', '\\\\n', '\x85', '\u2028', '\xe9', '\U0001f600', '{}', '&amp;'])
    v = S.str('v', (0, 1), ANY)
    a = S.str('t', (1, 1), LOWER)
    out = S.kajiki.TextTemplate(a + '\n' + TPY[form].replace('@', c) + '|')(dict(v=v)).render()
    S.eq(out, a + '\n' + 'a' + eval('"' + c + '"') + 'b' + v + '|', 'python in a text template')


def yielding(S, form):
    """What a block yields is output where it stands, as it is."""
    v = S.str('v', (0, 2), ANY)
    n = S.int('n', 0, 2)
    if form == 'xml':
        out, want = xt(S, '<x>a<?py yield v?>b${v}<?py #\n  for i in range(n):\n    yield v\n?>c</x>', dict(v=v, n=n)), '<x>a' + v + 'b' + esc(v) + v * n + 'c</x>'
    elif form == 'def':
        out, want = xt(S, '<x><py:def function="f(q)"><?py yield q?>!</py:def>${f(v)}${f(v)}</x>', dict(v=v)), '<x>' + (v + '!') * 2 + '</x>'
    elif form == 'none':
        out, want = xt(S, '<x>a<?py yield None?>b<?py yield v or None?></x>', dict(v=v)), '<x>ab' + v + '</x>'
    else:
        out = S.kajiki.TextTemplate('a%s' % {'line': '\n%py yield v\n', 'inline': '{%py yield v%}', 'block': '\n%py\n  yield v\n%end\n', 'join': '{%py%}\\\n    yield v\n{%end%}\\\n'}[form] + 'Body')(dict(v=v)).render()
        want = ('a\n' if form in ('line', 'block') else 'a') + v + 'Body'
    S.eq(out, want, 'yield')


def silent(S, what):
    """Blocks output nothing themselves and keep the text around them."""
    a = S.str('a', (0, 2), without(chars('ab \n\t<&'), ''))
    t = a.replace('&', '&amp;').replace('<', '&lt;')
    code = {'pass': '<?py pass?>', 'expr': '<?py 1 + 1?>', 'call': '<?py len("x")?>', 'doc': '<?py "string"?>', 'none': '<?py None?>', 'other': '<?py x = [y for y in (1, 2)]?>'}[what]
    out = xt(S, '<x>' + t + code + t + '<b/>' + code + '</x>')
    S.eq(out, '<x>' + t + t + '<b/></x>', 'no output')


def module(S, n, how):
    """<?py % is run once, for the whole template."""
    v = S.str('v', (0, n), ANY)
    log = []
    if how == 'def':
        src = '<x><?py %def h(a): return a + "m"\n?>${h(v)}<py:def function="f()">${h(v)}</py:def>${f()}</x>'
        want = '<x>' + esc(v + 'm') * 2 + '</x>'
    elif how == 'multi':
        src = '<x><?py %\ndef h(a):\n    return a + "m"\nK = "k"\n?>${h(v)}$K<b py:block="q">${h(K)}</b></x>'
        want = '<x>' + esc(v + 'm') + 'k<b>km</b></x>'
    elif how == 'import':
        src = '<x><?py %import string\n?>${v + string.digits}<py:def function="f()">${string.digits}</py:def>${f()}</x>'
        want = '<x>' + esc(v) + '0123456789' * 2 + '</x>'
    elif how == 'late':
        src = '<x>${h(v)}<?py %def h(a): return a + "m"\n?></x>'
        want = '<x>' + esc(v + 'm') + '</x>'
    elif how == 'two':
        src = '<x><?py %A = "1"\n?>$A$B$v<?py %B = A + "2"\n?></x>'
        want = '<x>112' + esc(v) + '</x>'
    tpl = S.kajiki.XMLTemplate(src)
    S.eq(tpl(dict(v=v)).render(), want, 'module level code')
    S.eq(tpl(dict(v=v)).render(), want, 'again')


VALS = ['absent', 'none', 'empty', 'zero', 'false', 'text', 'list']


def value(S, name):
    k = S.choice('kind' + name, VALS)
    v = {'none': None, 'empty': '', 'zero': 0, 'false': False, 'list': []}.get(k)
    if k == 'text':
        v = S.str('val' + name, (0, 2), ANY)
    return k != 'absent', v


def defined(S, form):
    """defined() is about presence, value_of() about the value."""
    has, v = value(S, 'q')
    ctx = dict(other=1)
    if has:
        ctx['q'] = v
    d = S.str('d', (0, 1), ANY)
    ctx['d'] = d
    shown = '' if not has or v is None else esc(str(v))
    if form == 'if':
        out = xt(S, '<x><b py:if="defined(\'q\')">$q</b></x>', ctx)
        want = '<b>' + shown + '</b>' if has else ''
    elif form == 'not':
        out = xt(S, '<x>${not defined("q")}</x>', ctx)
        want = str(not has)
    elif form == 'value':
        out = xt(S, '<x>${value_of("q")}</x>', ctx)
        want = shown
    elif form == 'default':
        out = xt(S, '<x>${value_of("q", d)}</x>', ctx)
        want = shown if has else esc(d)
    elif form == 'truth':
        out = xt(S, '<x><b py:if="value_of(\'q\')">$q</b></x>', ctx)
        want = '<b>' + shown + '</b>' if has and v else ''
    elif form == 'def':
        out = xt(S, '<x><py:def function="f()">${value_of("q", d)}${defined("q")}</py:def>${f()}</x>', ctx)
        want = (shown if has else esc(d)) + str(has)
    elif form == 'attr':
        out = xt(S, '<x><b a="${value_of(\'q\')}"/></x>', ctx)
        want = '<b/>' if not has or v is None else '<b a="' + shown + '"/>'
    elif form == 'text':
        out = S.kajiki.TextTemplate('${value_of("q", d)}|${defined("q")}', autoescape=True)(ctx).render()
        out = '<x>' + out + '</x>'
        want = (shown if has else esc(d)) + '|' + str(has)
    elif form == 'base':
        q = ctx.pop('q', None)
        out = xt(S, '<x>${value_of("q", d)}${defined("q")}</x>', ctx, base_globals={'q': q} if has else {})
        want = (shown if has else esc(d)) + str(has)
    elif form == 'include':
        K = S.kajiki
        loader = K.MockLoader({'m': K.XMLTemplate('<x><py:include href="p"/></x>'), 'p': K.XMLTemplate('<py:if test="defined(\'q\')">$q</py:if>')})
        out = loader.import_('m')(ctx).render()
        want = shown
    elif form == 'extends':
        K = S.kajiki
        loader = K.MockLoader({'m': K.XMLTemplate('<py:extends href="p"><py:block name="k">${value_of("q", d)}</py:block></py:extends>'),
                               'p': K.XMLTemplate('<x>${defined("q")}<py:block name="k"/></x>')})
        out = loader.import_('m')(ctx).render()
        want = str(has) + (shown if has else esc(d))
    elif form == 'with':
        out = xt(S, '<x><py:with vars="r=value_of(\'q\', d)">${r}</py:with></x>', ctx)
        want = shown if has else esc(d)
    S.eq(out, '<x>' + want + '</x>', 'defined and value_of')


def names(S, n):
    """defined and value_of take any name."""
    name = S.str('name', (1, n), chars('abx_'))
    S.assume(name != '_' and not name.startswith('__'))
    keys = [k for k in ('a', 'ab', 'x', 'bx_')]
    ctx = dict((k, k + '!') for k in keys)
    out = xt(S, '<x>${defined(nm)}${value_of(nm, "-")}</x>', dict(ctx, nm=name))
    has = any([name == k for k in keys])
    S.eq(out, '<x>' + (str(has) + (name + '!' if has else '-')) + '</x>', 'names')


def priority(S, name, text):
    """The context hides base_globals, these hide built-ins; functions of the template hide nothing of the context."""
    inctx, inbase = S.bool('ctx'), S.bool('base')
    c, b = S.str('c', (0, 1), ANY), S.str('b', (0, 1), ANY)
    ctx, base = {}, {}
    if inctx:
        ctx[name] = c
    if inbase:
        base[name] = b
    K = S.kajiki
    src = '$' + name
    tpl = K.TextTemplate('${%s}' % name, autoescape=True) if text else K.XMLTemplate('<x>${%s}</x>' % name, base_globals=base)
    if text:
        inbase = False
    if not inctx and not inbase and name == 'undefined_name':
        try:
            tpl(ctx).render()
        except NameError as e:
            S.check('undefined_name' in str(e), 'names the variable')
            return
        S.fail('an unknown name was accepted')
    out = tpl(ctx).render()
    want = esc(c) if inctx else esc(b) if inbase else esc(str(len)) if name == 'len' else None
    S.eq(out, want if text else '<x>' + want + '</x>', 'where a name comes from')


BUILTINS = [('${len(v)}', lambda v: str(len(v))), ('${v * 2}', lambda v: v * 2), ('${[c for c in v] == list(v)}', lambda v: 'True'),
            ('${"".join(sorted(["b", "a"]))}', lambda v: 'ab'), ('${max(1, 3)}', lambda v: '3'), ('${str(1) + v}', lambda v: '1' + v),
            ('${isinstance(v, str)}', lambda v: 'True'), ('${dict(a=v)["a"]}', lambda v: v), ('${(lambda q: q)(v)}', lambda v: v), ('${v if v else "e"}', lambda v: v or 'e'),
            ('${list(range(3))}', lambda v: '[0, 1, 2]'), ('${any([v])}', lambda v: str(bool(v))), ('${"%s-%s" % (v, 1)}', lambda v: v + '-1'),
            ('${"{}".format(v)}', lambda v: v), ('${sum(x for x in (1, 2))}', lambda v: '3'), ('${[v, 1][0]}', lambda v: v), ('${not v}', lambda v: str(not v)),
            ('${{"a": v}["a"]}', lambda v: v), ('${v and 1}', lambda v: '1' if v else ''), ('${v == v}', lambda v: 'True')]


def builtins(S, i, place, n):
    v = S.str('v', (0, n), ANY)
    e, f = BUILTINS[i]
    w = esc(f(v))
    if place == 'text':
        out, want = xt(S, '<x>' + e + '</x>', dict(v=v)), '<x>' + w + '</x>'
    elif place == 'attr':
        out, want = xt(S, '<x a="' + e.replace('"', '&quot;') + '"/>', dict(v=v)), '<x a="' + w + '"/>'
    elif place == 'with':
        S.assume(';' not in e)
        out, want = xt(S, '<x py:with="r=' + e[2:-1].replace('"', '&quot;') + '">$r</x>', dict(v=v)), '<x>' + w + '</x>'
    elif place == 'content':
        out, want = xt(S, '<x py:content="' + e[2:-1].replace('"', '&quot;') + '"/>', dict(v=v)), '<x>' + w + '</x>'
    elif place == 'def':
        out, want = xt(S, '<x><py:def function="f()">' + e + '</py:def>${f()}</x>', dict(v=v)), '<x>' + w + '</x>'
    S.eq(out, want, 'built-in')


def locals_(S, n):
    """A template's functions and blocks see the context, not each other's variables."""
    v = S.str('v', (0, n), ANY)
    out = xt(S, '<x><py:def function="f(a)"><?py b = a + "1"?>$b</py:def><py:def function="g()">${defined("b")}${defined("a")}${defined("v")}</py:def>'
                '${f(v)}${g()}<?py b = "2"?>$b${f(b)}$b</x>', dict(v=v))
    S.eq(out, '<x>' + esc(v) + '1FalseFalseTrue2212</x>', 'locals')


def plan(tier):
    big = tier != 'quick'
    P = []
    for s in sorted(BLOCKS):
        many = len(BLOCKS[s][0]) > 1
        for place in sorted(PLACES):
            if place == 'main' or big or s in ('assign', 'if', 'def', 'nested'):
                P.append(('python', dict(shape=s, place=place, pi='py', lay='block', n=2)))
        for lay in ('tail', 'first', 'flush') + (() if many else ('one',)) + (('blank',) if many else ()):
            P.append(('python', dict(shape=s, place='main', pi='python' if lay == 'first' else 'py', lay=lay, n=2)))
    P += [('multistring', dict(place='main', n=1))]
    P += [('literal', dict(where=w)) for w in ('line', 'block', 'module')]
    P += [('nothing', dict(place=w)) for w in ('main', 'if', 'else', 'for', 'def', 'block', 'case', 'call', 'with', 'attr', 'strip', 'inner')]
    P += [('textual', dict(form=w)) for w in sorted(TPY)]
    P += [('yielding', dict(form=w)) for w in ('xml', 'def', 'none', 'line', 'inline', 'block', 'join')]
    P += [('silent', dict(what=w)) for w in ('pass', 'expr', 'call', 'doc', 'none', 'other')]
    P += [('module', dict(n=3 if big else 2, how=h)) for h in ('def', 'multi', 'import', 'late', 'two')]
    P += [('defined', dict(form=f)) for f in ('if', 'not', 'value', 'default', 'truth', 'def', 'attr', 'text', 'base', 'include', 'extends', 'with')]
    P += [('names', dict(n=3 if big else 2))]
    P += [('priority', dict(name=nm, text=t)) for nm in ('undefined_name', 'len') for t in (False, True)]
    for i in range(len(BUILTINS)):
        for p in ('text', 'attr', 'with', 'content', 'def'):
            P.append(('builtins', dict(i=i, place=p, n=3 if big else 2)))
    P += [('locals_', dict(n=2))]
    P += [('large_python', dict(n=m, shape=s)) for m, s in ((150, 'lines'), (40, 'blocks'), (40, 'names'))]
    return P
