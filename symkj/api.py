"""The scenario interface.

A scenario is ``def scenario(S, **params)``.  ``S`` hands out inputs and takes
assertions.  ``SymS`` makes the inputs symbolic; ``ConcS`` replays one concrete
assignment against the unmodified code.
"""
import os
import shutil
import sys
import tempfile

SURR = (0xD800, 0xDFFF)


def minus(ranges, drop):
    out = []
    for lo, hi in ranges:
        segs = [(lo, hi)]
        for dl, dh in drop:
            nxt = []
            for a, b in segs:
                if dh < a or dl > b:
                    nxt.append((a, b))
                else:
                    if a < dl:
                        nxt.append((a, dl - 1))
                    if dh < b:
                        nxt.append((dh + 1, b))
            segs = nxt
        out.extend(segs)
    return tuple(sorted(out))


def norm(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def chars(s):
    return norm([(ord(c), ord(c)) for c in s])


def without(ranges, s):
    return minus(ranges, [(ord(c), ord(c)) for c in s])


ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
XML = ((9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
XMLNOCR = ((9, 10), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
ASCII = ((32, 126),)
LOWER = ((97, 122),)
IDENT = ((48, 57), (65, 90), (95, 95), (97, 122))


class Failed(Exception):
    """A property assertion failed in a concrete run."""


class BaseS(object):
    def __init__(self, kajiki):
        self.kajiki = kajiki
        self.names = {}
        self.cleanup = []
        self.reached = {}

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return '%s.%d' % (name, n) if n else name

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def close(self):
        for f in self.cleanup:
            f()
        self.cleanup = []


class ConcS(BaseS):
    symbolic = False

    def __init__(self, kajiki, inputs):
        BaseS.__init__(self, kajiki)
        self.inputs = inputs
        self.log = []

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.log.append((name, v))
        return v

    def str(self, name, lens=(0, 2), alphabet=ANY):
        name = self._name(name)
        return self._get(name, chr(alphabet[0][0]) * lens[0])

    def int(self, name, lo, hi):
        return self._get(self._name(name), lo)

    def quarters(self, n):
        """n / 4, exactly."""
        return n / 4

    def bool(self, name):
        return self._get(self._name(name), False)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(self._name(name), 0)]

    def assume(self, cond):
        if not cond:
            raise SystemExit('assumption does not hold in the concrete run')

    def check(self, cond, msg, **detail):
        self.reach('assert')
        if not cond:
            raise Failed('%s %s' % (msg, detail if detail else ''))

    def eq(self, got, want, msg):
        self.reach('assert')
        if not (got == want and type(got) is type(want)):
            raise Failed('%s\n  got : %r\n  want: %r' % (msg, got, want))

    def fail(self, msg, **detail):
        raise Failed('%s %s' % (msg, detail if detail else ''))

    def fs(self):
        return RealFS(self)

    def randint_arbitrary(self, draws=4):
        import random
        import sys
        real = random.randint
        left = [draws]

        def randint(a, b):
            if not left[0]:
                return real(a, b)
            left[0] -= 1
            n = self._name('randint')
            return self._get(n, a) if n in self.inputs else real(a, b)
        for m in [random] + [m for k, m in list(sys.modules.items()) if k.startswith('kajiki')]:
            old = getattr(m, 'randint', None)
            if old is not None and m is not None:
                m.randint = randint
                self.cleanup.append(lambda m=m, old=old: setattr(m, 'randint', old))

    def is_true(self, x):
        return bool(x)


class RealFS(object):
    def __init__(self, S):
        self.S = S
        self.root = tempfile.mkdtemp(prefix='symkj-')
        S.cleanup.append(lambda: shutil.rmtree(self.root, True))

    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, content, mtime):
        p = self.path(rel)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, 'wb') as f:
            f.write(content.encode('utf-8') if not isinstance(content, bytes) else content)
        os.utime(p, (mtime, mtime))

    def remove(self, rel):
        os.remove(self.path(rel))

    def on_read(self, rel, fn):
        """fn is called once, right after the file's content was read."""
        import builtins
        import codecs
        import io
        import pathlib
        path = self.path(rel)
        todo = [fn]

        def wrap(orig):
            def open_(p, *a, **k):
                f = orig(p, *a, **k)
                if todo and str(p) == path:
                    data = f.read()
                    f.close()
                    todo.pop()()
                    return io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data, newline='')
                return f
            return open_
        new = dict((o, wrap(o)) for o in (builtins.open, codecs.open))
        undo = []
        for m in [builtins, codecs, io, pathlib] + [v for k, v in sys.modules.items() if k.split('.')[0] == 'kajiki' and v]:
            for name, v in list(vars(m).items()):
                if callable(v) and type(v).__hash__ is not None and v in new:
                    undo.append((m, name, v))
                    setattr(m, name, new[v])
        self.S.cleanup.append(lambda: [setattr(m, n, v) for m, n, v in undo])
