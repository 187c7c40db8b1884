"""Document type and output mode."""
from symkj.api import ANY, LOWER, XMLNOCR, chars, without
from props.ref import empty, esc, esc_text

BOUNDS = ('each of 10 public doctypes and <!DOCTYPE html> with symbolic letter case and symbolic white space of 1..2 characters '
          'between its parts; other doctypes with symbolic text of 0..4 (thorough 6) characters; prologs of up to 3 pieces '
          '(XML declaration, comments, white space, byte order mark); modes given or not; fragments; '
          'included, imported and parent templates; doctype-like text of symbolic content in comments and CDATA')
OUTSIDE = 'doctypes with an internal subset; a doctype in lower case (not XML); white space before the closing >'

PUBLIC = [
    ('html', '-//W3C//DTD XHTML 1.0 Transitional//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd', 'xml'),
    ('html', '-//W3C//DTD XHTML 1.0 Strict//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd', 'xml'),
    ('html', '-//W3C//DTD XHTML 1.1//EN', 'http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd', 'xml'),
    ('html', '-//W3C//DTD XHTML 1.0 Frameset//EN', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd', 'xml'),
    ('html', '-//W3C//DTD XHTML Basic 1.1//EN', 'http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd', 'xml'),
    ('html', '-//WAPFORUM//DTD XHTML Mobile 1.2//EN', 'http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd', 'xml'),
    ('html', '-//W3C//DTD HTML 4.01 Transitional//EN', 'http://www.w3.org/TR/html4/loose.dtd', 'html'),
    ('html', '-//W3C//DTD HTML 4.01//EN', 'http://www.w3.org/TR/html4/strict.dtd', 'html'),
    ('html', '-//W3C//DTD HTML 4.01 Frameset//EN', 'http://www.w3.org/TR/html4/frameset.dtd', 'html'),
    ('html', '-//W3C//DTD XHTML+RDFa 1.0//EN', 'http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd', 'xml'),
]
BODY = '<p><br/><input checked="checked"/><b/>${v}</p>'
MODES = [None, 'xml', 'html', 'html5']


def body(mode, v):
    cx = {'mode': mode}
    chk = ' checked="checked"' if mode == 'xml' else ' checked'
    return '<p>' + empty('br', '', cx) + empty('input', chk, cx) + empty('b', '', cx) + esc(v) + '</p>'


def anycase(S, word):
    out = ''
    for i, c in enumerate(word):
        k = S.str('case%d' % i, (1, 1), chars(c.lower() + c.upper()))
        out = out + k
    return out


def html5(S, mode):
    """<!DOCTYPE html>, in any letter case and spacing."""
    v = S.str('v', (0, 2), ANY)
    sp = S.str('sp', (1, 2), chars(' \n\t'))
    d = '<!DOCTYPE' + sp + anycase(S, 'html') + '>'
    out = S.kajiki.XMLTemplate(d + '\n' + BODY, mode=mode)(dict(v=v)).render()
    S.eq(out, d + '\n' + body(mode or 'html5', v), 'html5 doctype')


def public(S, i, mode):
    """Public doctypes select their mode."""
    root, fpi, uri, m = PUBLIC[i]
    v = S.str('v', (0, 1), ANY)
    a = S.str('a', (1, 1), chars(' \n\t'))
    b = S.str('b', (1, 2), chars(' \n\t'))
    d = '<!DOCTYPE ' + anycase(S, root[:2]) + root[2:] + a + 'PUBLIC' + ' "' + fpi + '"' + b + '"' + uri + '">'
    out = S.kajiki.XMLTemplate(d + BODY, mode=mode)(dict(v=v)).render()
    S.eq(out, d + '\n' + body(mode or m, v), 'public doctype')


def folded(s, word):
    """s equals the word in some letter case."""
    if len(s) != len(word):
        return False
    for x, c in zip(s, word):
        if x != c and x != c.upper():
            return False
    return True


def other(S, n, mode):
    """Any other doctype: kept, and the mode is XML unless given."""
    v = S.str('v', (0, 1), ANY)
    s = S.str('s', (0, n), without(XMLNOCR, '>[ \n\t'))
    h = S.choice('h', ['h', 'H', 'htm', 'tml', ''])
    if h == '':
        S.assume(s != '')
    S.assume(not folded(h + s, 'html'))
    d = '<!DOCTYPE ' + h + s + '>'
    out = S.kajiki.XMLTemplate(d + BODY, mode=mode)(dict(v=v)).render()
    S.eq(out, d + '\n' + body(mode or 'xml', v), 'other doctype')


def tail(S, n):
    """A doctype that only begins like a known one is another doctype."""
    v = S.str('v', (0, 1), ANY)
    s = S.str('s', (1, n), without(XMLNOCR, '>[ \n\t'))
    i = S.choice('i', [-1, 0, 6, 7])
    if i < 0:
        d = '<!DOCTYPE html ' + s + '>'
    else:
        root, fpi, uri, m = PUBLIC[i]
        d = '<!DOCTYPE html PUBLIC "' + fpi + '" "' + uri + s + '">'
    out = S.kajiki.XMLTemplate(d + BODY)(dict(v=v)).render()
    S.eq(out, d + '\n' + body('xml', v), 'longer doctype')


def none(S, mode):
    """No doctype: HTML5 mode writes one, the others do not."""
    v = S.str('v', (0, 2), ANY)
    out = S.kajiki.XMLTemplate(BODY, mode=mode)(dict(v=v)).render()
    S.eq(out, ('<!DOCTYPE html>\n' if mode == 'html5' else '') + body(mode or 'xml', v), 'no doctype')


def fragment(S, mode, d):
    """Fragments never write a doctype, but still follow its mode."""
    v = S.str('v', (0, 2), ANY)
    dt, m = {'none': ('', 'xml'), 'html5': ('<!DOCTYPE html>', 'html5'),
             'html4': ('<!DOCTYPE html PUBLIC "%s" "%s">' % PUBLIC[6][1:3], 'html'),
             'xhtml': ('<!DOCTYPE html PUBLIC "%s" "%s">' % PUBLIC[1][1:3], 'xml'),
             'other': ('<!DOCTYPE foo SYSTEM "x.dtd">', 'xml')}[d]
    out = S.kajiki.XMLTemplate(dt + BODY, mode=mode, is_fragment=True)(dict(v=v)).render()
    S.eq(out, body(mode or m, v), 'fragment')


PIECES = ['', ' ', '\n', '<!-- c -->', '<!-- <!DOCTYPE foo> -->', '<!--!c-->']


def prolog(S, d, quick):
    """What precedes the root element never disturbs the doctype or the document."""
    v = S.str('v', (0, 1), ANY)
    first = S.choice('first', ['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', u'\ufeff'])
    a = S.choice('a', PIECES)
    b = S.choice('b', ['', '\n'] if quick else PIECES)
    c = S.choice('c', PIECES)
    dt, m = {'none': ('', 'xml'), 'html5': ('<!DOCTYPE html>', 'html5'), 'other': ('<!DOCTYPE foo>', 'xml')}[d]
    out = S.kajiki.XMLTemplate(first + a + b + dt + c + BODY)(dict(v=v)).render()
    S.eq(out, (dt + '\n' if dt else '') + body(m, v), 'prolog')


def epilog(S, d):
    """Comments and white space after the root element neither."""
    v = S.str('v', (0, 1), ANY)
    a = S.choice('a', PIECES)
    b = S.choice('b', PIECES)
    dt, m = {'none': ('', 'xml'), 'html5': ('<!DOCTYPE html>', 'html5')}[d]
    out = S.kajiki.XMLTemplate(dt + BODY + a + b)(dict(v=v)).render()
    S.eq(out, (dt + '\n' if dt else '') + body(m, v), 'epilog')


def inside(S, where, n, mode):
    """Text that looks like a doctype is text."""
    s = S.str('s', (1, n), without(XMLNOCR, '>[-]$<&'))
    t = '<!DOCTYPE ' + s + '>'
    src, w = {'cdata': ('<p><![CDATA[' + t + ']]></p>', '<p><![CDATA[' + t + ']]></p>'),
              'comment': ('<p><!--' + t + '--></p>', '<p><!-- ' + t + ' --></p>'),
              'entity': ('<p>&lt;!DOCTYPE ' + s + '></p>', '<p>&lt;!DOCTYPE ' + s + '&gt;</p>'),
              'script': ('<script><![CDATA[' + t + ']]></script>', None)}[where]
    if w is None:
        w = '<script>' + ('/*<![CDATA[*/' + t + '/*]]>*/' if mode == 'xml' else t) + '</script>'
    out = S.kajiki.XMLTemplate(src, mode=mode)({}).render()
    S.eq(out, ('<!DOCTYPE html>\n' if mode == 'html5' else '') + w, 'doctype-like text')


DT = {'none': ('', 'xml'), 'html5': ('<!DOCTYPE html>', 'html5'),
      'html4': ('<!DOCTYPE html PUBLIC "%s" "%s">' % PUBLIC[6][1:3], 'html'), 'other': ('<!DOCTYPE foo>', 'xml')}


def composed(S, how):
    """One doctype at the very beginning of a page put together from several templates."""
    v = S.str('v', (0, 1), ANY)
    pd = S.choice('page', sorted(DT))
    qd = S.choice('part', sorted(DT))
    dt, m = DT[pd]
    qt, qm = DT[qd]
    fs = S.fs()
    if how == 'include':
        fs.write('part.xml', qt + '<i>$v<br/></i>', 1)
        fs.write('page.xml', dt + '<p><py:include href="part.xml"/><br/></p>', 1)
        w = '<p><i>' + esc(v) + empty('br', '', {'mode': qm}) + '</i>' + empty('br', '', {'mode': m}) + '</p>'
    elif how == 'import':
        fs.write('part.xml', qt + '<i><py:def function="f(x)"><b>$x<br/></b></py:def></i>', 1)
        fs.write('page.xml', dt + '<p><py:import href="part.xml" alias="q"/>${q.f(v)}<br/></p>', 1)
        w = '<p><b>' + esc(v) + empty('br', '', {'mode': qm}) + '</b>' + empty('br', '', {'mode': m}) + '</p>'
    else:
        # the page is the parent; the child's own doctype is not written
        fs.write('part.xml', dt + '<p><py:block name="k">old</py:block><br/></p>', 1)
        fs.write('page.xml', qt + '<py:extends href="part.xml"><py:block name="k"><i>$v<br/></i></py:block></py:extends>',
                 1)
        w = '<p><i>' + esc(v) + empty('br', '', {'mode': qm}) + '</i>' + empty('br', '', {'mode': m}) + '</p>'
    out = S.kajiki.FileLoader(fs.root).load('page.xml')(dict(v=v)).render()
    # FileLoader leaves the mode of .xml files to the doctype
    S.eq(out, (dt + '\n' if dt else '') + w, 'composed page')


NAMES = ['xhtml1transitional', 'xhtml1strict', 'xhtml11', 'xhtml1frameset', 'xhtmlbasic11', 'xhtmlmobile12', 'html4transitional', 'html4strict',
         'html4frameset', 'xhtml1rdfa']


def named(S):
    """The known doctypes are known by their names, in any letter case and spacing."""
    D = S.kajiki.xml_template.DocumentTypeDeclaration
    i = S.choice('i', list(range(-1, len(PUBLIC))))
    a = S.str('a', (1, 2), chars(' \n\t'))
    if i < 0:
        d, name, mode, uri = '<!DOCTYPE' + a + anycase(S, 'html') + '>', 'html5', 'html5', ''
    else:
        root, fpi, uri, mode = PUBLIC[i]
        d, name = '<!DOCTYPE ' + anycase(S, root[:2]) + root[2:] + a + 'PUBLIC' + ' "' + fpi + '"' + a + '"' + uri + '">', NAMES[i]
    k = D.matching(d)
    S.check(k is not None, 'known doctype', got=repr(k))
    S.eq(k.name, name, 'name')
    S.eq(k.rendering_mode, mode, 'mode')
    S.eq(k.uri, uri, 'uri')
    S.check(D.matching(str(k)) is k, 'its own text', got=str(k))


def taken(S, n):
    """Taking the doctype out of a document takes nothing else, and tells where it was."""
    s = S.str('s', (0, n), without(XMLNOCR, '>[<'))
    t = S.str('t', (0, n), without(XMLNOCR, '['))
    pre = S.choice('pre', ['', ' ', u'\ufeff', '<!-- <!DOCTYPE x> -->\n', '<?xml version="1.0"?>', '<?q > <!DOCTYPE x>?> '])
    d = '<!DOCTYPE ' + s + '>' if S.choice('d', [False, True]) else ''
    if not d:
        t = '<p>' + t
    got, pos, rest = S.kajiki.xml_template.extract_dtd(pre + d + t)
    S.eq(got, d, 'the doctype')
    S.eq(rest, pre + t, 'the rest')
    S.eq(pos, len(pre), 'the place')


def several(S):
    """Only one root element."""
    s = S.choice('s', ['<p/><p/>', '<p>a</p><q>b</q>', '', '<!-- c -->', '<!DOCTYPE html>'])
    try:
        S.kajiki.XMLTemplate(s)
    except Exception as e:
        S.check(type(e).__name__ in ('XMLTemplateCompileError', 'XMLTemplateParseError'), 'error kind',
                got=type(e).__name__)
        return
    S.fail('accepted', src=s)


def plan(tier):
    big = tier != 'quick'
    P = [('html5', dict(mode=m)) for m in MODES]
    P += [('public', dict(i=i, mode=None)) for i in range(len(PUBLIC))]
    P += [('public', dict(i=i, mode=m)) for i in (0, 7) for m in MODES[1:]]
    P += [('other', dict(n=5 if big else 4, mode=m)) for m in MODES]
    P += [('tail', dict(n=4 if big else 2))]
    P += [('none', dict(mode=m)) for m in MODES]
    P += [('fragment', dict(mode=m, d=d)) for m in MODES for d in ('none', 'html5', 'html4', 'xhtml', 'other')]
    P += [('prolog', dict(d=d, quick=not big)) for d in ('none', 'html5', 'other')]
    P += [('epilog', dict(d=d)) for d in ('none', 'html5')]
    P += [('inside', dict(where=w, n=4 if big else 3, mode=m)) for w in ('cdata', 'comment', 'entity', 'script')
          for m in ('xml', 'html5')]
    P += [('composed', dict(how=h)) for h in ('include', 'import', 'extends')]
    P += [('named', {}), ('taken', dict(n=3 if big else 2))]
    P += [('several', {})]
    return P
