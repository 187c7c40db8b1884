"""Static text of a template reaches the output unchanged."""
import html.entities

from symkj.api import XML, XMLNOCR, chars, without
from props.ref import esc, esc_text, SRC_TEXT
from props.large import text as large_text

BOUNDS = ('symbolic static text of 0..3 (thorough 4) arbitrary XML characters in each of 14 positions, '
          'up to three adjacent pieces; every HTML5 entity name; character references; comments and '
          'CDATA sections of 0..3 (thorough 4) characters; strip_text on and off; 3 modes')
OUTSIDE = ('longer text (the text pipeline is per character and per boundary); text containing "]]>" '
           'outside CDATA (not well-formed XML); processing instructions')


def src(s):
    return s.translate(SRC_TEXT).replace(']]>', ']]&gt;')


def seen(s):
    """XML line-end normalisation."""
    return s.replace('\r\n', '\n').replace('\r', '\n')


POS = {
    'only': ('<p>%s</p>', None), 'kid': ('<p><b>%s<i/></b></p>', None),
    'before': ('<p>%s<b/></p>', None), 'after': ('<p><b/>%s</p>', None),
    'expr': ('<p>%s${1}</p>', '<p>%s1</p>'), 'afterexpr': ('<p>${1}%s</p>', '<p>1%s</p>'),
    'if': ('<p><py:if test="True">%s</py:if></p>', '<p>%s</p>'),
    'for': ('<p><py:for each="i in (1, 2)">%s</py:for></p>', '<p>%s%s</p>'),
    'def': ('<p><py:def function="f()">%s</py:def>${f()}</p>', '<p>%s</p>'),
    'block': ('<p><py:block name="k">%s</py:block></p>', '<p>%s</p>'),
    'with': ('<p py:with="x=1">%s$x</p>', '<p>%s1</p>'),
    'case': ('<p><py:switch test="1"><py:case value="1">%s</py:case></py:switch></p>', '<p>%s</p>'),
    'strip': ('<p><b py:strip="">%s</b></p>', '<p>%s</p>'),
    'comment': ('<p>%s<!--!gone-->%s</p>', '<p>%s%s</p>'),
    'pre': ('<pre>\n%s \n</pre>', None),
    'call': ('<p><py:def function="f(caller)">${caller()}</py:def>'
             '<py:call function="f(%caller)">%s</py:call></p>', '<p>%s</p>'),
    'else': ('<p><py:if test="False">x</py:if><py:else>%s</py:else></p>', '<p>%s</p>'),
}


def fill(pat, s):
    out = ''
    parts = pat.replace('%caller', '\0').split('%s')
    for i, p in enumerate(parts):
        out = out + p.replace('\0', '%caller')
        if i < len(parts) - 1:
            out = out + s
    return out


def text(S, pos, n, mode=None):
    s = S.str('s', (0, n), XML)
    pat, want = POS[pos]
    out = S.kajiki.XMLTemplate(fill(pat, src(s)), mode=mode, is_fragment=True)().render()
    t = esc_text(seen(s))
    if pos in ('before', 'after') and mode and mode != 'xml':
        want = pat.replace('<b/>', '<b></b>')
    if pos == 'only' and not len(s) and mode is None:
        want = '<p/>'
    S.eq(out, fill(want or pat, t), 'static text')


def ws(S, a, b):
    """Leading and trailing white space of any kind is kept."""
    w1 = S.str('w1', (0, a), chars(u' \t\n\xa0\u2003\u3000'))
    w2 = S.str('w2', (0, b), chars(u' \n\xa0\u2028'))
    out = S.kajiki.XMLTemplate('<p>' + w1 + 'x' + w2 + '<b/>' + w1 + '${1}' + w2 + '</p>')().render()
    S.eq(out, '<p>' + w1 + 'x' + w2 + '<b/>' + w1 + '1' + w2 + '</p>', 'white space')


def pieces(S, n):
    """Pieces keep their order."""
    a = S.str('a', (0, n), XMLNOCR)
    b = S.str('b', (0, n), XMLNOCR)
    c = S.str('c', (0, n), XMLNOCR)
    out = S.kajiki.XMLTemplate('<p>' + src(a) + '<i>' + src(b) + '.</i>' + src(c) + '</p>')().render()
    S.eq(out, '<p>' + esc_text(a) + '<i>' + esc_text(b) + '.</i>' + esc_text(c) + '</p>', 'pieces')


def dollar(S, n):
    """A dollar sign that starts no expression is plain text."""
    first = S.str('f', (1, 1), without(XMLNOCR, '$_{&<0123456789' + 'abcdefghijklmnopqrstuvwxyz'
                                       'ABCDEFGHIJKLMNOPQRSTUVWXYZ' + u'\u0130\u0131\u017f\u212a'))
    rest = S.str('r', (0, n), without(XMLNOCR, '$&<'))
    s = '$' + first + rest
    S.assume(']]>' not in s)
    out = S.kajiki.XMLTemplate('<p>a' + s + '</p>')().render()
    S.eq(out, '<p>a' + esc_text(s) + '</p>', 'lone dollar')
    out = S.kajiki.XMLTemplate('<p>a$</p>')().render()
    S.eq(out, '<p>a$</p>', 'trailing dollar')


def digits(S):
    """$ before a digit is plain text too."""
    d = S.str('d', (1, 3), chars('0123456789.,'))
    out = S.kajiki.XMLTemplate('<p>$' + d + '</p>')().render()
    S.eq(out, '<p>$' + d + '</p>', 'price')


NAMES = sorted(k[:-1] for k in html.entities.html5 if k.endswith(';') and k != 'dollar;')


def entity(S, lo, hi, n):
    """Named entities of HTML are understood everywhere in text."""
    name = S.choice('name', NAMES[lo:hi])
    s = S.str('s', (0, n), without(XMLNOCR, '$&<>'))
    out = S.kajiki.XMLTemplate('<p>' + s + '&' + name + ';' + s + '</p>')().render()
    S.eq(out, '<p>' + s + esc_text(html.entities.html5[name + ';']) + s + '</p>', 'named entity')


REFS = {'&#65;': 'A', '&#x41;': 'A', '&#38;': '&amp;', '&#60;': '&lt;', '&#x3e;': '&gt;',
        '&#8364;': u'\u20ac', '&#x1F600;': u'\U0001F600', '&#34;': '"', '&#39;': "'", '&apos;': "'",
        '&quot;': '"', '&lt;': '&lt;', '&gt;': '&gt;', '&amp;': '&amp;', '&amp;lt;': '&amp;lt;',
        '&amp;amp;': '&amp;amp;', '&amp;#38;': '&amp;#38;', '&#10;': '\n', '&#9;': '\t', '&#160;': u'\xa0'}


def ref(S):
    r = S.choice('r', sorted(REFS))
    q = S.choice('q', sorted(REFS))
    out = S.kajiki.XMLTemplate('<p>x' + r + 'y' + q + '</p>')().render()
    S.eq(out, '<p>x' + REFS[r] + 'y' + REFS[q] + '</p>', 'character reference')


def comment(S, n, where):
    """Comments stay (padded by one space); <!--! comments go."""
    s = S.str('s', (0, n), XML)
    S.assume('--' not in s)
    if len(s):
        S.assume(s[len(s) - 1] != '-')
    if where == 'kid':
        a, b = '<p>x', 'y</p>'
    elif where == 'loop':
        a, b = '<p><py:for each="i in (1,)">', '</py:for></p>'
    else:
        a, b = '<p><b>', '</b>z</p>'
    out = S.kajiki.XMLTemplate(a + '<!--' + s + '-->' + b)().render()
    c = '' if len(s) and s[0] == '!' else '<!-- ' + seen(s) + ' -->'
    if where == 'loop':
        S.eq(out, '<p>' + c + '</p>', 'comment')
    else:
        S.eq(out, a + c + b, 'comment')


def cdata(S, n, where, strip=False):
    """CDATA sections stay as written."""
    s = S.str('s', (0, n), without(XML, '$'))
    S.assume(']]>' not in s)
    a, b = {'kid': ('<p>', '</p>'), 'mix': ('<p>x &amp;<b/> ', ' &lt;y</p>'),
            'after': ('<p><b>q</b>', '<i/></p>')}.get(where, (None, None))
    if a is None:
        pat, want = POS[where]
        out = S.kajiki.XMLTemplate(fill(pat, '<![CDATA[' + s + ']]>'), strip_text=strip)().render()
        return S.eq(out, fill(want or pat, '<![CDATA[' + (seen(s).strip() if strip else seen(s)) + ']]>'), 'CDATA inside ' + where)
    out = S.kajiki.XMLTemplate(a + '<![CDATA[' + s + ']]>' + b)().render()
    S.eq(out, a + '<![CDATA[' + seen(s) + ']]>' + b, 'CDATA')


PROLOG = ['', '<!-- c -->', '<!-- c\n-->\n', '<?xml version="1.0"?>', '<?xml version="1.0"?>\n<!-- c -->', '<!-- a --><!-- b -->', '<!--! c -->']


def prolog(S, pos, n):
    """What precedes and follows the root element does not change how it is understood."""
    pro = S.choice('pro', PROLOG)
    epi = S.choice('epi', ['', '<!-- e -->', '\n', '\n<!-- e\n-->\n'])
    s = S.str('s', (0, n), chars('x\n &'))
    pat, want = POS[pos]
    out = S.kajiki.XMLTemplate(pro + fill(pat, src(s) + '${(1,\n2)[1]}' + '\n') + epi)().render()
    S.eq(out, fill(want or pat, esc_text(s) + '2\n'), 'after a comment')


def stripped(S, n):
    """strip_text removes the white space around each piece of text, nothing else."""
    s = S.str('s', (0, n), without(XMLNOCR, '$&<>'))
    out = S.kajiki.XMLTemplate('<p>' + s + '<b> ' + s + '\n</b>${1}</p>', strip_text=True)().render()
    S.eq(out, '<p>' + s.strip() + '<b>' + s.strip() + '</b>1</p>', 'strip_text')


def stripmix(S, n):
    """With strip_text, white space next to an expression inside the text stays."""
    s = S.str('s', (0, n), chars(' x\n'))
    out = S.kajiki.XMLTemplate('<p>' + s + '${1}' + s + '</p>', strip_text=True)().render()
    S.eq(out, '<p>' + s.lstrip() + '1' + s.rstrip() + '</p>', 'strip_text around expressions')


def tags(S):
    """Element and attribute names come out as written."""
    t = S.str('t', (1, 3), chars('aB_-:.9'))
    S.assume(t[0] != '-')
    S.assume(t[0] != '.')
    S.assume(t[0] != '9')
    out = S.kajiki.XMLTemplate('<' + t + '><' + t + '/>x</' + t + '>')().render()
    S.eq(out, '<' + t + '><' + t + '/>x</' + t + '>', 'names')


def plan(tier):
    big = tier != 'quick'
    n = 4 if big else 3
    P = [('text', dict(pos=p, n=n if p in ('only', 'expr') else n - 1)) for p in sorted(POS)]
    P += [('text', dict(pos=p, n=n - 1, mode=m)) for p in ('only', 'before', 'expr') for m in ('html', 'html5')]
    P += [('ws', dict(a=2, b=2)), ('pieces', dict(n=1)), ('dollar', dict(n=n - 1)), ('digits', {})]
    step = 220
    P += [('entity', dict(lo=i, hi=i + step, n=1)) for i in range(0, len(NAMES), step)]
    P += [('ref', {}), ('stripped', dict(n=n)), ('stripmix', dict(n=n))]
    P += [('comment', dict(n=n, where=w)) for w in ('kid', 'loop', 'nested')]
    P += [('cdata', dict(n=n, where=w)) for w in ('kid', 'mix', 'after')]
    P += [('cdata', dict(n=n - 1, where=w, strip=t)) for w in sorted(POS) for t in (False, True) if w not in ('with', 'pre', 'before', 'after') and (w, t) != ('only', True)]
    P += [('prolog', dict(pos=p, n=2 if big else 1)) for p in sorted(POS)]
    P += [('tags', {}, dict(conc_cap=500))]
    P += [('large_text', dict(n=m, shape=s)) for m, s in ((5000, 'long'), (10000, 'long'), (130, 'nodes'), (60, 'deep'), (70, 'comments'))]
    return P
