"""Independent reference semantics, used as the oracle.

A *spec tree* describes a template abstractly.  ``src`` writes it down in the
XML template language; ``run`` computes, from the language's documentation and
without looking at kajiki, what it must render to.
"""

ESC = {38: '&amp;', 60: '&lt;', 62: '&gt;', 34: '&quot;'}
ESC_TEXT = {38: '&amp;', 60: '&lt;', 62: '&gt;'}
SRC_TEXT = {38: '&amp;', 60: '&lt;', 36: '$$'}
SRC_ATTR = {38: '&amp;', 60: '&lt;', 34: '&quot;', 36: '$$'}

VOID = ('area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param')
BOOLEAN = ('checked', 'disabled', 'readonly', 'multiple', 'selected', 'nohref', 'ismap',
           'declare', 'defer')


def esc(s):
    """How interpolated text must come out."""
    return s.translate(ESC)


def shown(v):
    """How an interpolated value must come out in element content."""
    if v is None:
        return ''
    return esc(str(v))


def esc_text(s):
    """How static text must come out."""
    return s.translate(ESC_TEXT)


def attr(s):
    """A value written inside a double-quoted attribute."""
    return s.translate(SRC_ATTR)


def pyattr(s):
    """A Python expression written inside a double-quoted attribute."""
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


class Node(object):
    kids = ()

    def src_kids(self):
        return ''.join([k.src() for k in self.kids])

    def run_kids(self, env, cx):
        return ''.join([k.run(env, cx) for k in self.kids])


class Text(Node):
    def __init__(self, s):
        self.s = s

    def src(self):
        return self.s.translate(SRC_TEXT)

    def run(self, env, cx):
        return esc_text(self.s)


class Expr(Node):
    """${name}: a variable, or a Python expression with a reference function."""
    def __init__(self, name, fn=None, dollar=False):
        self.name = name
        self.fn = fn
        self.dollar = dollar

    def src(self):
        if self.dollar:
            return '$' + self.name
        return '${' + self.name.replace('&', '&amp;').replace('<', '&lt;') + '}'

    def run(self, env, cx):
        return shown(self.fn(env) if self.fn else env[self.name])


class El(Node):
    """A plain element; attrs are (name, static value)."""
    def __init__(self, tag, kids=(), attrs=(), extra=''):
        self.tag = tag
        self.kids = kids
        self.attrs = attrs
        self.extra = extra           # directives, already written out

    def src(self):
        a = ''.join([' %s="%s"' % (k, attr(v)) for k, v in self.attrs])
        if not self.kids:
            return '<%s%s%s/>' % (self.tag, self.extra, a)
        return '<%s%s%s>%s</%s>' % (self.tag, self.extra, a, self.src_kids(), self.tag)

    def run(self, env, cx):
        a = ''.join([' %s="%s"' % (k, esc(v)) for k, v in sorted(self.attrs)])
        if not self.kids:
            return empty(self.tag, a, cx)
        inner = self.run_kids(env, cx)
        if cx.get('mode', 'xml') != 'xml' and self.tag in VOID:
            return '<%s%s>%s' % (self.tag, a, inner)
        return '<%s%s>%s</%s>' % (self.tag, a, inner, self.tag)


def empty(tag, a, cx):
    if cx.get('mode', 'xml') == 'xml':
        if tag == 'script':
            return '<%s%s></%s>' % (tag, a, tag)
        return '<%s%s/>' % (tag, a)
    if tag in VOID:
        return '<%s%s>' % (tag, a)
    return '<%s%s></%s>' % (tag, a, tag)


class Directive(Node):
    """form 'elem': <py:x arg="..">kids</py:x>; form 'attr': <tag py:x="..">kids</tag>."""
    name = None
    arg = None
    tag = 'b'

    def value(self):
        raise NotImplementedError

    def src(self):
        v = pyattr(self.value())
        if self.form == 'elem':
            return '<py:%s %s="%s">%s</py:%s>' % (self.name, self.arg, v, self.src_kids(),
                                                  self.name)
        return El(self.tag, self.kids, (), ' py:%s="%s"' % (self.name, v)).src()

    def body(self, env, cx):
        if self.form == 'elem':
            return self.run_kids(env, cx)
        return El(self.tag, self.kids).run(env, cx)


class If(Directive):
    name, arg = 'if', 'test'

    def __init__(self, form, test, kids, fn=None):
        self.form, self.test, self.kids, self.fn = form, test, kids, fn

    def value(self):
        return self.test

    def holds(self, env):
        return self.fn(env) if self.fn else env[self.test]

    def run(self, env, cx):
        if self.holds(env):
            return self.body(env, cx)
        return ''


class IfElse(If):
    def __init__(self, form, test, kids, other, eform='elem', fn=None):
        If.__init__(self, form, test, kids, fn)
        self.other = other
        self.eform = eform

    def src(self):
        s = If.src(self)
        o = ''.join([k.src() for k in self.other])
        if self.eform == 'elem':
            return s + '<py:else>%s</py:else>' % o
        return s + El('i', self.other, (), ' py:else=""').src()

    def run(self, env, cx):
        if self.holds(env):
            return self.body(env, cx)
        if self.eform == 'elem':
            return ''.join([k.run(env, cx) for k in self.other])
        return El('i', self.other).run(env, cx)


class For(Directive):
    name, arg = 'for', 'each'

    def __init__(self, form, var, seq, kids, fn=None):
        self.form, self.var, self.seq, self.kids, self.fn = form, var, seq, kids, fn

    def value(self):
        return '%s in %s' % (self.var, self.seq)

    def run(self, env, cx):
        out = []
        names = [n.strip() for n in self.var.split(',')]
        for item in (self.fn(env) if self.fn else env[self.seq]):
            e = dict(env)
            if len(names) == 1:
                e[names[0]] = item
            else:
                for n, x in zip(names, item):
                    e[n] = x
            out.append(self.body(e, cx))
        return ''.join(out)


class With(Directive):
    """pairs: (name, python expression, reference function of env)."""
    name, arg = 'with', 'vars'

    def __init__(self, form, pairs, kids, sep=';'):
        self.form, self.pairs, self.kids, self.sep = form, pairs, kids, sep

    def value(self):
        return self.sep.join(['%s=%s' % (n, x) for n, x, f in self.pairs])

    def run(self, env, cx):
        e = dict(env)
        for n, x, f in self.pairs:
            e[n] = f(e)
        return self.body(e, cx)


class Switch(Node):
    """cases: (form, python expr, fn(env), kids); other: kids or None."""
    def __init__(self, test, cases, other=None, fn=None, space='', oform='elem'):
        self.test, self.cases, self.other, self.fn = test, cases, other, fn
        self.space = space
        self.oform = oform

    def src(self):
        out = ['<py:switch test="%s">' % pyattr(self.test), self.space]
        for form, x, f, kids in self.cases:
            body = ''.join([k.src() for k in kids])
            if form == 'elem':
                out.append('<py:case value="%s">%s</py:case>' % (pyattr(x), body))
            else:
                out.append(El('u', kids, (), ' py:case="%s"' % pyattr(x)).src())
            out.append(self.space)
        if self.other is not None:
            if self.oform == 'elem':
                out.append('<py:else>%s</py:else>' % ''.join([k.src() for k in self.other]))
            else:
                out.append(El('u', self.other, (), ' py:else=""').src())
            out.append(self.space)
        out.append('</py:switch>')
        return ''.join(out)

    def run(self, env, cx):
        v = self.fn(env) if self.fn else env[self.test]
        for form, x, f, kids in self.cases:
            if f(env) == v:
                if form == 'elem':
                    return ''.join([k.run(env, cx) for k in kids])
                return El('u', kids).run(env, cx)
        if self.other is not None:
            if self.oform == 'elem':
                return ''.join([k.run(env, cx) for k in self.other])
            return El('u', self.other).run(env, cx)
        return ''


class Strip(Node):
    """<tag py:strip="expr">kids</tag>; expr '' strips."""
    def __init__(self, expr, kids, fn=None, tag='s', attrs=()):
        self.expr, self.kids, self.fn, self.tag, self.attrs = expr, kids, fn, tag, attrs

    def src(self):
        return El(self.tag, self.kids, self.attrs, ' py:strip="%s"' % pyattr(self.expr)).src()

    def run(self, env, cx):
        if self.expr == '' or (self.fn(env) if self.fn else env[self.expr]):
            return self.run_kids(env, cx)
        return El(self.tag, self.kids, self.attrs).run(env, cx)


class Def(Node):
    """A template function; calls are FnCall nodes.  Must precede its calls."""
    def __init__(self, fname, params, kids, form='elem'):
        self.fname, self.params, self.kids, self.form = fname, params, kids, form

    def src(self):
        sig = '%s(%s)' % (self.fname, ', '.join(self.params))
        if self.form == 'elem':
            return '<py:def function="%s">%s</py:def>' % (sig, self.src_kids())
        return El('em', self.kids, (), ' py:def="%s"' % sig).src()

    def run(self, env, cx):
        env[self.fname] = self
        return ''

    def call(self, env, cx, args):
        e = dict(env)
        for p, a in zip(self.params, args):
            e[p] = a
        if self.form == 'elem':
            return self.run_kids(e, cx)
        return El('em', self.kids).run(e, cx)


class FnCall(Node):
    """${f(a, b)} where the arguments are variable names."""
    def __init__(self, fname, args):
        self.fname, self.args = fname, args

    def src(self):
        return '${%s(%s)}' % (self.fname, ', '.join(self.args))

    def run(self, env, cx):
        return env[self.fname].call(env, cx, [env[a] for a in self.args])


class Root(Node):
    def __init__(self, kids, tag='root'):
        self.kids, self.tag = kids, tag

    def src(self):
        return El(self.tag, self.kids).src()

    def run(self, env, cx=None):
        cx = cx or {}
        return El(self.tag, self.kids).run(dict(env), cx)


def outcome(f):
    """('ok', value) or ('raised', exception type name)."""
    try:
        return ('ok', f())
    except Exception as e:
        return ('raised', type(e).__name__)
