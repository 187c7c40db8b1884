"""Values of many makings that all show the same text: what counts is str(value)."""
import collections
import decimal


def _sub(base, *args):
    def make(s):
        class V(base):
            def __str__(self):
                return s
        return V(*args)
    return make


def _object(**attrs):
    def make(s):
        d = dict((k, f) for k, f in attrs.items())
        d['__str__'] = lambda self: s
        return type('V', (object,), d)()
    return make


class _Meta(type):
    def __str__(cls):
        return cls.text


def _boom(*a):
    raise RuntimeError('this must not be asked')


MAKINGS = {
    'list0': _sub(list), 'list1': _sub(list, [1]), 'tuple0': _sub(tuple), 'tuple1': _sub(tuple, (None,)), 'dict0': _sub(dict), 'dict1': _sub(dict, {1: 2}),
    'set0': _sub(set), 'set1': _sub(set, [1]), 'frozenset0': _sub(frozenset), 'str0': _sub(str), 'str1': _sub(str, '<s>'), 'bytes0': _sub(bytes),
    'bytes1': _sub(bytes, b'<'), 'int0': _sub(int), 'int1': _sub(int, 7), 'float0': _sub(float), 'float1': _sub(float, 2.5), 'complex': _sub(complex, 1j),
    'decimal': _sub(decimal.Decimal, '1'), 'exception': _sub(Exception, '<x>'), 'deque': _sub(collections.deque), 'userdict': _sub(collections.UserDict),
    'userlist': _sub(collections.UserList), 'bytearray': _sub(bytearray),
    'false': _object(__bool__=lambda self: False), 'empty': _object(__len__=lambda self: 0), 'iter': _object(__iter__=lambda self: iter(['<i>'])),
    'next': _object(__iter__=lambda self: self, __next__=_boom), 'call': _object(__call__=lambda self: '<c>'), 'eq': _object(__eq__=lambda self, o: True, __hash__=lambda self: 0),
    'uneq': _object(__eq__=lambda self, o: False, __ne__=lambda self, o: True, __hash__=_boom), 'nobool': _object(__bool__=_boom), 'nolen': _object(__len__=_boom),
    'noeq': _object(__eq__=_boom, __hash__=_boom), 'unhash': _object(__hash__=None), 'add': _object(__add__=lambda self, o: '<a>', __radd__=lambda self, o: '<r>'),
    'mod': _object(__mod__=lambda self, o: '<m>', __rmod__=lambda self, o: '<m>'), 'items': _object(items=lambda self: [('a', 'b')], keys=lambda self: ['a']),
    'replace': _object(replace=lambda self, a, b: self), 'repr': _object(__repr__=lambda self: '<repr>'), 'format': _object(__format__=lambda self, f: '<format>'),
    'join': _object(join=lambda self, x: '<j>'), 'encode': _object(encode=lambda self, *a: b'<e>', decode=lambda self, *a: '<d>'),
    'anyattr': lambda s: type('V', (object,), dict(__str__=lambda self: s, __getattr__=lambda self, k: _none(k)))(),
    'meta': lambda s: _Meta('V', (object,), dict(text=s)),
    'slots': lambda s: type('V', (object,), dict(__slots__=(), __str__=lambda self: s))(),
}


def _none(k):
    raise AttributeError(k)


def pick(S, n, alphabet, group):
    """A value and the text it must show; the makings in eight groups."""
    names = sorted(MAKINGS)[group::8]
    s = S.str('s', (0, n), alphabet)
    name = S.choice('making', names)
    return MAKINGS[name](s), s, name
