"""Loaders: finding, kinds, caching and reloading."""
import sys

from symkj.api import ANY, LOWER, RealFS, chars
from props.ref import empty, esc
from props.large import cache

BOUNDS = ('search paths of 1..3 directories, every subset of them containing the template; histories of up to 4 steps (edit, remove, '
          'restore, shadow, load) with symbolic modification times and reload on or off; edits between the moments a loader looks at a file and '
          'reads it; pages whose parent, included or imported templates change; 4 extensions and 4 forced modes; options given to the loader '
          'or to the call; names that differ only in case, extension or directory; symbolic values of 0..2 characters; packages with every subset of the 4 extensions')
OUTSIDE = ('a changed file whose modification time is not newer than that of the version already loaded; a file that changes while it is being '
           'read; the same template used as a page and as a fragment (depends on the order, as documented in the code); zipped packages')


def loader(S, fs, path=None, **kw):
    return S.kajiki.FileLoader(fs.root if path is None else path, **kw)


def render(T, v):
    return T(dict(v=v)).render()


def search(S, n, how):
    """The first directory of the path that has the file."""
    v = S.str('v', (0, 2), ANY)
    fs = S.fs()
    dirs = ['d%d' % i for i in range(n)]
    sub = S.choice('sub', ['', 'x/', 'x/y/'])
    have = [S.choice('has%d' % i, [False, True]) for i in range(n)]
    for d, h in zip(dirs, have):
        fs.write(d + '/keep', 'x', 1)
        if h:
            fs.write(d + '/' + sub + 't.xml', '<p>%s$v</p>' % d, S.int('m', 1, 9))
    path = [fs.path(d) for d in dirs]
    L = loader(S, fs, ';'.join(path) if how == 'str' else tuple(path) if how == 'tuple' else path)
    first = [d for d, h in zip(dirs, have) if h][:1]
    try:
        T = L.load(sub + 't.xml')
    except (IOError, OSError):
        S.check(not first, 'not found although present')
        return
    S.check(first, 'found although absent')
    S.eq(render(T, v), '<p>' + first[0] + esc(v) + '</p>', 'which directory')


def history(S, steps, on, warm=False, fraction=False):
    """After any history, a load shows the newest text (reload) or the first one loaded (no reload)."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    now = S.int('t0', 1, 1000)
    L = loader(S, fs) if on == 'default' else loader(S, fs, reload=on)
    live = on is not False
    text = None          # what the file has now
    cached = None        # (text, template) as loaded last, while still valid
    fresh = False        # no change since the last load
    for i in range(steps):
        what = S.choice('s%d' % i, ['edit', 'load', 'remove', 'touch']) if i > 1 or not warm else ['edit', 'load'][i]
        if what in ('edit', 'touch'):
            S.assume(what == 'edit' or text is not None)
            now = now + S.int('dt%d' % i, 1, 1000)
            if what == 'edit':
                text = str(i)
            fs.write('t.xml', '<p>' + text + '$v</p>', S.quarters(now) if fraction else now)
            fresh = False
        elif what == 'remove':
            S.assume(text is not None)
            fs.remove('t.xml')
            text = None
            fresh = False
        elif text is None and (live or cached is None):
            try:
                L.load('t.xml')
            except (IOError, OSError):
                S.check(True, 'unknown')
                cached = None
            else:
                S.fail('loaded a template that has no file')
        else:
            T = L.load('t.xml')
            if cached is not None and (fresh or not live):
                S.check(T is cached[1], 'an unchanged template was compiled again')
                S.eq(render(T, v), '<p>' + cached[0] + esc(v) + '</p>', 'cached text, step %d' % i)
            else:
                S.eq(render(T, v), '<p>' + text + esc(v) + '</p>', 'newest text, step %d' % i)
                cached = (text, T)
            fresh = True
    S.check(True, 'end')


NAMES = ['t.xml', 't.html', 't.txt', 'a/t.xml', 'b/t.xml', 'a/b/t.xml', 'b/a/t.xml', 'T.xml', 't.t.xml', 'tt.xml', 'a.xml', 'a.b.xml', 'a_t.xml', 'a-t.xml', 't .xml', 'b/t.txt', '\xe9.xml']


def names(S, steps, reload, edit):
    """Every name has its own template, however alike names are."""
    v = S.str('v', (0, 1), ANY)
    fs = S.fs()
    for i, k in enumerate(NAMES):
        fs.write(k, '%d$v' % i if k.endswith('txt') else '<p>%d$v</p>' % i, 5)
    L = loader(S, fs, reload=reload)
    seen = {}
    for j in range(steps):
        i = S.choice('load%d' % j, list(range(len(NAMES))))
        k = NAMES[i]
        T = L.load(k)
        x = v if k.endswith('txt') else esc(v)
        t = str(i)
        if edit and k in seen:
            t = 'e' + t
        S.eq(render(T, v), (t + x) if k.endswith('txt') else '<p>' + t + x + '</p>', 'which template, load %d' % j)
        if k in seen and not edit:
            S.check(T is seen[k], 'the same template')
        if edit and k not in seen:
            fs.write(k, 'e%d$v' % i if k.endswith('txt') else '<p>e%d$v</p>' % i, 6)
        seen[k] = T


def shadow(S):
    """A newer file put in an earlier directory takes over; removing it gives the later one back."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    m = S.int('m', 1, 100)
    d = S.int('d', 1, 100)
    fs.write('a/keep', 'x', 1)
    fs.write('b/t.xml', '<p>b$v</p>', m)
    L = loader(S, fs, [fs.path('a'), fs.path('b')])
    S.eq(render(L.load('t.xml'), v), '<p>b' + esc(v) + '</p>', 'only the later one')
    fs.write('a/t.xml', '<p>a$v</p>', m + d)
    S.eq(render(L.load('t.xml'), v), '<p>a' + esc(v) + '</p>', 'shadowed')
    fs.remove('a/t.xml')
    fs.write('b/t.xml', '<p>c$v</p>', m + d + d)
    S.eq(render(L.load('t.xml'), v), '<p>c' + esc(v) + '</p>', 'given back')


def race(S, ext):
    """An edit that happens just after the old text was read is not lost."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    m = S.int('m', 1, 100)
    d = S.int('d', 1, 100)
    when = S.choice('when', ['first', 'second', 'both'])
    body = '<p>%s$v</p>' if ext != 'txt' else '%s$v'
    name = 't.' + ext

    def put(t, at):
        fs.write(name, body % t, at)

    def show(t):
        x = v if ext == 'txt' else esc(v)
        return '<p>' + t + x + '</p>' if ext != 'txt' else t + x
    put('0', m)
    L = loader(S, fs)
    last = '0'
    if when != 'second':
        fs.on_read(name, lambda: put('1', m + d))
        S.eq(render(L.load(name), v), show('0'), 'text at the time of reading')
        last = '1'
    S.eq(render(L.load(name), v), show(last), 'text after the edit')
    if when != 'first':
        put('2', m + d + d)
        fs.on_read(name, lambda: put('3', m + d + d + d))
        S.eq(render(L.load(name), v), show('2'), 'text at the time of reading again')
        S.eq(render(L.load(name), v), show('3'), 'text after the second edit')
    S.eq(render(L.load(name), v), show('1' if when == 'first' else '3'), 'and from then on')


PARTS = {'extends': ('<py:extends href="q.xml"><py:block name="b">$v</py:block></py:extends>', '<r>%s<py:block name="b">o</py:block></r>',
                     lambda t, e: '<r>' + t + e + '</r>'),
         'include': ('<p><py:include href="q.xml"/></p>', '<i>%s$v</i>', lambda t, e: '<p><i>' + t + e + '</i></p>'),
         'import': ('<p><py:import href="q.xml"/>${q.f(v)}</p>', '<i><py:def function="f(x)">%s$x</py:def></i>',
                    lambda t, e: '<p>' + t + e + '</p>')}


def parts(S, kind, on, fraction=False):
    """Changes of a parent, included or imported file show at the next render of the page."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    m = S.int('m', 1, 100)
    page, part, f = PARTS[kind]
    fs.write('page.xml', page, m)
    fs.write('q.xml', part % 'A', m)
    L = loader(S, fs, reload=on)
    T = L.load('page.xml')
    S.eq(render(T, v), f('A', esc(v)), 'first')
    at = m + S.int('d', 1, 100) if not fraction else S.quarters(m * 4 + S.int('d', 1, 100))
    fs.write('q.xml', part % 'B', at)
    again = S.choice('again', [False, True])
    if again:
        T2 = L.load('page.xml')
        S.check(T2 is T, 'the page itself did not change')
    S.eq(render(T, v), f('B' if on else 'A', esc(v)), 'after the change')


def broken(S):
    """A broken edit is an error; a repaired one works again."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    m = S.int('m', 1, 100)
    bad = S.choice('bad', ['<p>', '<p>${</p>', '<p>${1 +}</p>'])
    fs.write('t.xml', '<p>0$v</p>', m)
    L = loader(S, fs)
    S.eq(render(L.load('t.xml'), v), '<p>0' + esc(v) + '</p>', 'before')
    fs.write('t.xml', bad, m + 1)
    for i in range(2):
        try:
            L.load('t.xml')
        except Exception as e:
            S.check(type(e).__name__.startswith('XMLTemplate'), 'kind of error', got=type(e).__name__)
        else:
            S.fail('the broken text was ignored')
    fs.write('t.xml', '<p>1$v</p>', m + 2)
    S.eq(render(L.load('t.xml'), v), '<p>1' + esc(v) + '</p>', 'after')


KIND = '<p>$v<br/><b/></p>'


def shown(mode, v):
    if mode == 'text':
        return '<p>' + v + '<br/><b/></p>'
    c = {'mode': mode}
    return ('<!DOCTYPE html>\n' if mode == 'html5' else '') + '<p>' + esc(v) + empty('br', '', c) + empty('b', '', c) + '</p>'


def kinds(S, force):
    """The extension selects the kind of template unless the loader forces one."""
    fs = S.fs()
    v = S.str('v', (0, 2), ANY)
    ext = S.choice('ext', ['xml', 'html', 'html5', 'txt'])
    name = S.choice('name', ['t.', 'a.b.', 'd.txt/t.', 'txt.'])
    fs.write(name + ext, KIND, 1)
    L = loader(S, fs, force_mode=force) if force else loader(S, fs)
    mode = force or {'txt': 'text'}.get(ext, ext)
    S.eq(render(L.load(name + ext), v), shown(mode, v), 'kind of template')
    # the same file again, and others of another kind beside it
    fs.write('z.txt', KIND, 1)
    fs.write('z.xml', KIND, 1)
    S.eq(render(L.load('z.txt'), v), shown(force or 'text', v), 'text beside it')
    S.eq(render(L.load('z.xml'), v), shown(force or 'xml', v), 'XML beside it')
    S.eq(render(L.load(name + ext), v), shown(mode, v), 'kind of template, cached')


def unknown(S):
    """No such template, or no such kind of template: an error."""
    fs = S.fs()
    fs.write('a.xml', '<p/>', 1)
    fs.write('b.foo', '<p/>', 1)
    name = S.choice('name', ['b.xml', 'a.html', 'x/a.xml', 'a', 'b.foo', 'A.xml'])
    L = loader(S, fs)
    for i in range(2):
        try:
            L.load(name)
        except (IOError, OSError):
            S.check(name != 'b.foo', 'the file exists')
        except Exception:
            S.check(name == 'b.foo', 'an unknown template must raise IOError')
        else:
            S.fail('loaded', name=name)


def options(S, where):
    """Options given to the loader apply to its templates, options of the call to that template."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    fs.write('t.xml', '<p> <script>a</script> $v </p>', 1)
    cd, st = S.choice('cdata', [None, True, False]), S.choice('strip', [None, True, False])
    kw = {}
    if cd is not None:
        kw['cdata_scripts'] = cd
    if st is not None:
        kw['strip_text'] = st
    if where == 'loader':
        T = loader(S, fs, **kw).load('t.xml')
    elif where == 'call':
        T = loader(S, fs).load('t.xml', **kw)
    elif where == 'over':
        T = loader(S, fs, cdata_scripts=False, strip_text=True).load('t.xml', **kw)
        cd = False if cd is None else cd
        st = True if st is None else st
    else:
        T = loader(S, fs, force_mode='xml', **kw).load('t.xml')
    script = '<script>a</script>' if cd is False else '<script>/*<![CDATA[*/a/*]]>*/</script>'
    w = '<p>' + script + esc(v) + '</p>' if st else '<p> ' + script + ' ' + esc(v) + ' </p>'
    S.eq(render(T, v), w, 'options')


def autoblocks(S, force):
    """xml_autoblocks."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    fs.write('p.xml', '<r><py:block name="body">old</py:block></r>', 1)
    fs.write('t.xml', '<py:extends href="p.xml"><body>$v</body></py:extends>', 1)
    on = S.choice('on', [False, True])
    kw = dict(xml_autoblocks=['body']) if on else {}
    if force:
        kw['force_mode'] = 'xml'
    S.eq(render(loader(S, fs, **kw).load('t.xml'), v), '<r>' + esc(v) + '</r>' if on else '<r>old</r><body>' + esc(v) + '</body>',
         'autoblocks of the loader')


def autoescape(S, force):
    """autoescape_text."""
    fs = S.fs()
    v = S.str('v', (0, 2), ANY)
    fs.write('t.txt', '<$v>', 1)
    on = S.choice('on', [False, True])
    kw = dict(autoescape_text=on)
    if force:
        kw['force_mode'] = 'text'
    S.eq(render(loader(S, fs, **kw).load('t.txt'), v), '<' + (esc(v) if on else v) + '>', 'autoescape of the loader')


def encodings(S):
    """Files are read in the encoding given, UTF-8 by default."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    text = u'\xe9\u20ac'
    enc = S.choice('enc', [None, 'utf-8', 'iso8859-15', 'utf-16'])
    ext = S.choice('ext', ['txt', 'xml'])
    S.assume(ext == 'txt' or enc is None)
    src = text + '$v' if ext == 'txt' else '<p>' + text + '$v</p>'
    fs.write('t.' + ext, src.encode(enc or 'utf-8'), 1)
    way = S.choice('way', ['loader', 'forced', 'direct'])
    kw = {} if enc is None else dict(encoding=enc)
    if way == 'direct' and ext == 'txt':
        T = S.kajiki.TextTemplate(filename=fs.path('t.txt'), **kw)
    elif way == 'direct':
        T = S.kajiki.XMLTemplate(filename=fs.path('t.xml'))
    else:
        T = loader(S, fs, **(dict(force_mode='text' if ext == 'txt' else 'xml') if way == 'forced' else {})).load('t.' + ext, **kw)
    S.eq(render(T, v), text + v if ext == 'txt' else '<p>' + text + esc(v) + '</p>', 'encoding')


def contents(S, ext, n):
    """What is rendered is the text of the file, whatever it is."""
    fs = S.fs()
    t = S.str('t', (1, n), ((97, 122), (9, 10), (32, 32), (0xa0, 0xd7ff), (0x10000, 0x10ffff)))
    fs.write('t.' + ext, t if ext == 'txt' else '<p>' + t + '</p>', 1)
    out = loader(S, fs).load('t.' + ext)({}).render()
    dt = '<!DOCTYPE html>\n' if ext == 'html5' else ''
    S.eq(out, t if ext == 'txt' else dt + '<p>' + t + '</p>', 'text of the file')


def separate(S):
    """Loaders are independent of each other."""
    fs = S.fs()
    v = S.str('v', (0, 1), ANY)
    fs.write('a/t.xml', '<p>a$v<py:include href="i.xml"/></p>', 5)
    fs.write('a/i.xml', '<i>a</i>', 5)
    fs.write('b/t.xml', '<p>b$v<py:include href="i.xml"/></p>', 3)
    fs.write('b/i.xml', '<i>b</i>', 3)
    A, B = loader(S, fs, fs.path('a')), loader(S, fs, fs.path('b'))
    for i in range(3):
        k = S.choice('k%d' % i, ['a', 'b'])
        S.eq(render((A if k == 'a' else B).load('t.xml'), v), '<p>' + k + esc(v) + '<i>' + k + '</i></p>', 'loader ' + k)


def mock(S):
    """MockLoader serves exactly what it was given."""
    v = S.str('v', (0, 1), ANY)
    X = S.kajiki.XMLTemplate
    t = X('<p>$v<py:include href="i"/></p>')
    L = S.kajiki.MockLoader({'t': t, 'i': X('<i>i</i>')})
    S.check(L.load('t') is t and L.import_('t') is t, 'same template')
    S.eq(render(L.load('t'), v), '<p>' + esc(v) + '<i>i</i></p>', 'mock')


_count = [0]


def package(S):
    """PackageLoader finds package.template by extension, in a fixed order."""
    v = S.str('v', (0, 1), ANY)
    fs = RealFS(S)
    _count[0] += 1
    pkg = 'symkj_pkg_%d_%d' % (id(fs) % 100003, _count[0])
    fs.write(pkg + '/__init__.py', '', 1)
    order = ['xml', 'html', 'html5', 'txt']
    have = [S.choice('has_' + e, [False, True]) for e in order]
    for e, h in zip(order, have):
        fs.write(pkg + '/other.' + e, '<p>no</p>', 1)
        if h:
            fs.write(pkg + '/t.' + e, KIND, 1)
    sys.path.insert(0, fs.root)
    try:
        L = S.kajiki.PackageLoader()
        first = [e for e, h in zip(order, have) if h][:1]
        try:
            T = L.load(pkg + '.t')
        except (IOError, OSError):
            S.check(not first, 'not found although present')
            return
        S.check(first, 'found although absent')
        S.eq(render(T, v), shown({'txt': 'text'}.get(first[0], first[0]), v), 'package template')
        S.check(L.load(pkg + '.t') is T, 'cached')
    finally:
        sys.path.remove(fs.root)
        sys.modules.pop(pkg, None)
        S.close()


def packaged(S, on, sub):
    """PackageLoader notices newer files as FileLoader does, and serves the parts of a page from its packages."""
    v = S.str('v', (0, 1), ANY)
    fs = RealFS(S)
    _count[0] += 1
    top = 'symkj_pkg_%d_%d' % (id(fs) % 100003, _count[0])
    fs.write(top + '/__init__.py', '', 1)
    pkg, where = (top + '.sub', top + '/sub/') if sub else (top, top + '/')
    if sub:
        fs.write(top + '/sub/__init__.py', '', 1)
        fs.write(top + '/t.xml', '<p>outer</p>', 1)
    page = '<p>%d$v<py:include href="' + pkg + '.i"/></p>'
    fs.write(where + 't.xml', page % 0, 10)
    fs.write(where + 'i.html', '<i>0<br/></i>', 10)
    sys.path.insert(0, fs.root)
    try:
        L = S.kajiki.PackageLoader(**({} if on == 'default' else dict(reload=on)))
        t = i = 0
        for k in range(3):
            what = S.choice('what%d' % k, ['none', 'page', 'part'])
            if what == 'page':
                fs.write(where + 't.xml', page % (k + 1), 20 + k)
                t = k + 1 if on or k == 0 else t
            elif what == 'part':
                fs.write(where + 'i.html', '<i>%d<br/></i>' % (k + 1), 20 + k)
                i = k + 1 if on or k == 0 else i
            S.eq(render(L.load(pkg + '.t'), v), '<p>%d' % t + esc(v) + '<i>%d<br></i></p>' % i, 'page of a package')
    finally:
        sys.path.remove(fs.root)
        for m in (top, top + '.sub'):
            sys.modules.pop(m, None)
        S.close()


def plan(tier):
    big = tier != 'quick'
    P = [('search', dict(n=n, how=h)) for n in (1, 2, 3) for h in ('str', 'list', 'tuple')]
    P += [('history', dict(steps=s, on=on)) for on in (True, False, 'default') for s in ((3, 4, 5) if big else (4,) if on is True else (3,))]
    P += [('history', dict(steps=s, on=on, warm=True)) for on in (True, False) for s in ((5, 6) if big else (5,))]
    P += [('names', dict(steps=2, reload=r, edit=e)) for r, e in ((True, False), (False, False), (True, True))]
    P += [('shadow', {}), ('broken', {}), ('unknown', {}), ('encodings', {}), ('separate', {}), ('mock', {}), ('package', {})]
    P += [('packaged', dict(on=on, sub=s)) for on in ('default', True, False) for s in (False, True)]
    P += [('race', dict(ext=e)) for e in ('xml', 'html', 'txt')]
    P += [('history', dict(steps=4, on=True, warm=w, fraction=True)) for w in (True, False)]
    P += [('parts', dict(kind=k, on=True, fraction=True)) for k in sorted(PARTS)]
    P += [('parts', dict(kind=k, on=on)) for k in sorted(PARTS) for on in (True, False)]
    P += [('kinds', dict(force=f)) for f in (None, 'xml', 'html', 'html5', 'text')]
    P += [('options', dict(where=w)) for w in ('loader', 'call', 'over', 'force')]
    P += [('autoblocks', dict(force=f)) for f in (False, True)]
    P += [('autoescape', dict(force=f)) for f in (False, True)]
    P += [('contents', dict(ext=e, n=4 if big else 3)) for e in ('xml', 'html', 'html5', 'txt')]
    P += [('cache', dict(n=m)) for m in (20, 140)]
    return P
