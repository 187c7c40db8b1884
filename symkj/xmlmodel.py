"""xml.sax.make_parser() for symbolic documents.

The real expat parses the document.  Before that, a scanner walks the characters
and *forks* on every distinction expat makes between characters in the context at
hand ('<', '&', line ends, quotes, invalid characters, ']]>', '--', '?>'); what
is left undistinguished is an arbitrary ordinary character of character data, an
attribute value, a comment, CDATA or PI data, all of which expat passes through
unchanged.  Each such character is replaced by a private-use stand-in, and mapped
back in the events expat reports.
"""
import io
import xml.sax
import xml.sax.handler
import xml.sax.xmlreader

from . import engine as eng
from . import terms as tm
from .terms import T
from .symval import SymStr, SymBytes, mkchars, chars_eq, concretise_str, SymInt
from . import models

_make_parser = xml.sax.make_parser
BASE = 0xF0000
INVALID = ((0, 8), (11, 12), (14, 31), (0xD800, 0xDFFF), (0xFFFE, 0xFFFF))


def pin(c, e, cap=None):
    """Make a character concrete on this path."""
    if not isinstance(c, T):
        return c
    v = tm.ev(c, e.model)
    m = e.must(tm.eq(c, v))
    if m:
        return v
    e.note_concretised('xml markup character')
    return e.concretise_int(c, cap=cap or 6)


def scan(chars):
    """Return the characters with every distinction the context needs made."""
    e = eng.CUR
    out = list(chars)
    n = len(out)
    i = 0
    state = 'text'
    quote = None

    def is_(k, ch):
        if k >= n:
            return False
        c = out[k]
        if not isinstance(c, T):
            return c == ord(ch)
        if e.branch(tm.eq(c, ord(ch))):
            out[k] = ord(ch)
            return True
        return False

    def seq(k, s):
        """Does the text at k equal s (decided as one condition)?"""
        if k + len(s) > n:
            return False
        win = out[k:k + len(s)]
        want = [ord(x) for x in s]
        if e.branch(chars_eq(win, want)):
            out[k:k + len(s)] = want
            return True
        return False

    def valid(k):
        c = out[k]
        if isinstance(c, T) and e.branch(tm.inset(c, INVALID)):
            out[k] = pin(c, e, 2)

    def ordinary(k, ends):
        """A data character: settle line ends and validity."""
        valid(k)
        for ch in ends:
            if isinstance(out[k], T):
                is_(k, ch)

    while i < n:
        if state == 'text':
            if is_(i, '<'):
                if seq(i + 1, '!--'):
                    state, i = 'comment', i + 4
                elif seq(i + 1, '![CDATA['):
                    state, i = 'cdata', i + 9
                elif is_(i + 1, '?'):
                    state, i = 'pi', i + 2
                elif is_(i + 1, '!'):
                    state, i = 'decl', i + 2
                else:
                    state, i = 'tag', i + 1
            elif is_(i, '&'):
                i = entity(out, i, n, e, is_)
            else:
                ordinary(i, '\n\r')
                seq(i, ']]>')
                i += 1
        elif state == 'tag':
            if i < n:
                out[i] = pin(out[i], e)
            c = chr(out[i])
            if c == '>':
                state = 'text'
            elif c in '"\'':
                state, quote = 'attr', c
            i += 1
        elif state == 'attr':
            if is_(i, quote):
                state = 'tag'
                i += 1
            elif is_(i, '&'):
                i = entity(out, i, n, e, is_)
            else:
                is_(i, '<')
                ordinary(i, '\n\r\t')
                i += 1
        elif state == 'comment':
            if seq(i, '-->'):
                state, i = 'text', i + 3
            else:
                seq(i, '--')
                ordinary(i, '\n\r')
                i += 1
        elif state == 'cdata':
            if seq(i, ']]>'):
                state, i = 'text', i + 3
            else:
                ordinary(i, '\n\r')
                i += 1
        elif state == 'pi':
            # target: up to white space; then data
            out[i] = pin(out[i], e)
            if seq(i, '?>'):
                state, i = 'text', i + 2
            elif chr(out[i]) in ' \t\r\n':
                state = 'pidata0'
                i += 1
            else:
                i += 1
        elif state in ('pidata0', 'pidata'):
            if seq(i, '?>'):
                state, i = 'text', i + 2
            else:
                ordinary(i, '\n\r')
                if state == 'pidata0':      # white space after the target is dropped
                    for ch in ' \t':
                        is_(i, ch)
                    if isinstance(out[i], T) or chr(out[i]) not in ' \t\r\n':
                        state = 'pidata'
                i += 1
        else:           # a declaration: pinned
            out[i] = pin(out[i], e)
            if chr(out[i]) == '>':
                state = 'text'
            i += 1
    return out


def entity(out, i, n, e, is_):
    """After '&': the reference name is pinned up to ';'."""
    k = i + 1
    while k < n:
        if is_(k, ';'):
            return k + 1
        out[k] = pin(out[k], e, 4)
        c = chr(out[k])
        if not (c.isalnum() or c in '#_-.:'):
            return k
        k += 1
    return k


class Attrs(object):
    def __init__(self, items):
        self._d = dict(items)

    def items(self):
        return list(self._d.items())

    def keys(self):
        return list(self._d)
    getNames = keys
    getQNames = keys

    def values(self):
        return list(self._d.values())

    def get(self, k, d=None):
        return self._d.get(k, d)

    def __getitem__(self, k):
        return self._d[k]

    def getValue(self, k):
        return self._d[k]
    getValueByQName = getValue

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def copy(self):
        return Attrs(self._d)


class Relay(object):
    """Maps stand-ins in expat's events back to symbolic characters."""
    def __init__(self, model):
        self.m = model

    def _back(self, s):
        if s is None:
            return None
        tab = self.m.table
        if not any(c in tab for c in s):
            return s
        self.m.seen += sum(1 for c in s if c in tab)
        return mkchars([tab.get(c, ord(c)) for c in s])

    def __getattr__(self, name):
        if name in ('startDocument', 'endDocument', 'startCDATA', 'endCDATA', 'startDTD',
                    'endDTD', 'startEntity', 'endEntity', 'setDocumentLocator'):
            return getattr(self.m.handler, name)
        raise AttributeError(name)

    def startElement(self, name, attrs):
        items = [(k, self._back(v)) for k, v in attrs.items()]
        self.m.handler.startElement(name, Attrs(items))

    def endElement(self, name):
        self.m.handler.endElement(name)

    def characters(self, s):
        self.m.handler.characters(self._back(s))

    def ignorableWhitespace(self, s):
        self.m.handler.ignorableWhitespace(s)

    def processingInstruction(self, t, d):
        self.m.handler.processingInstruction(t, self._back(d))

    def skippedEntity(self, n):
        self.m.handler.skippedEntity(n)

    def comment(self, s):
        self.m.handler.comment(self._back(s))

    def startPrefixMapping(self, *a):
        self.m.handler.startPrefixMapping(*a)

    def endPrefixMapping(self, *a):
        self.m.handler.endPrefixMapping(*a)


class ModelParser(object):
    def __init__(self, *a):
        self.real = _make_parser(*a)
        self.features = []
        self.props = []
        self.handler = None
        self.lexical = False
        self.table = {}
        self.seen = 0

    def setContentHandler(self, h):
        self.handler = h
        self.real.setContentHandler(h)

    def getContentHandler(self):
        return self.handler

    def setProperty(self, p, v):
        self.props.append((p, v))
        if p == xml.sax.handler.property_lexical_handler:
            self.lexical = True
        self.real.setProperty(p, v)

    def setFeature(self, f, v):
        self.features.append((f, v))
        self.real.setFeature(f, v)

    def parse(self, source):
        stream = source.getByteStream() if hasattr(source, 'getByteStream') else source
        data = stream.data if isinstance(stream, models.SymBytesIO) else None
        if not isinstance(data, SymBytes):
            return self.real.parse(source)
        chars = scan(data.s.chars())
        text = []
        for c in chars:
            if isinstance(c, T):
                ch = chr(BASE + len(self.table))
                self.table[ch] = c
                text.append(ch)
            else:
                text.append(chr(c))
        relay = Relay(self)
        self.real.setContentHandler(relay)
        if self.lexical:
            self.real.setProperty(xml.sax.handler.property_lexical_handler, relay)
        new = xml.sax.xmlreader.InputSource()
        new.setEncoding(source.getEncoding())
        new.setByteStream(io.BytesIO(''.join(text).encode('utf-8')))
        new.setSystemId(source.getSystemId())
        self.real.parse(new)

    def __getattr__(self, name):
        return getattr(self.real, name)


def install():
    models.FUNC[xml.sax.make_parser] = ModelParser
