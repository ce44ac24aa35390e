"""Symbolic text: a string with holes that stand for arbitrary JSON text.

A hole is the image of an arbitrary text over a finite alphabet under a character-wise map
(a homomorphism of strings).  Encoding a string as JSON and replacing single characters are
such maps, so a statement about the image of all texts reduces, by induction over the text, to
the images of the single characters of the alphabet.  A hole is represented by one private-use
code point inside an ordinary str, so that string operations of the code under contract carry it along.
"""
import json as _json
import types

from .expr import unsupported

PRINTABLE = [chr(i) for i in range(0x20, 0x7f)]
_holes = {}


class Hole(object):
    def __init__(self, value, image):
        self.value = value            # what the text encodes
        self.image = image            # character -> text
        self.mark = chr(0xF0000 + len(_holes))
        _holes[self.mark] = self

    def map(self, f):
        return Hole(self.value, {c: f(t) for c, t in self.image.items()})


def holes(s):
    return [_holes[c] for c in s if c in _holes]


def _map(s, hole, literal):
    out = []
    lit = ''
    for c in s:
        if c in _holes:
            out += [literal(lit), hole(_holes[c]).mark]
            lit = ''
        else:
            lit += c
    return Text(''.join(out + [literal(lit)]))


class Text(str):
    def replace(self, a, b, count=-1):
        if count != -1:
            unsupported('counted replacement in symbolic text')
        if len(a) != 1:
            for h in holes(self):
                if any(set(t) & set(a) for t in h.image.values()):
                    unsupported('replacement of %r in symbolic text' % (a,))
            return Text(str.replace(self, a, b))
        return _map(self, lambda h: h.map(lambda t: t.replace(a, b)), lambda t: t.replace(a, b))

    def translate(self, table):
        return _map(self, lambda h: h.map(lambda t: t.translate(table)), lambda t: t.translate(table))

    def __add__(self, o):
        return Text(str.__add__(self, o))

    def __radd__(self, o):
        return Text(str.__add__(o, self))

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            unsupported('formatted symbolic text')
        return self

    def _no(name):
        def f(self, *a, **k):
            unsupported('str.%s of symbolic text' % name)
        return f

    for _n in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'encode', 'lower', 'upper', 'title', 'casefold', 'swapcase', 'capitalize',
               'partition', 'rpartition', 'splitlines', 'find', 'index', 'count', 'startswith', 'endswith', '__getitem__', '__contains__',
               '__len__', 'expandtabs', 'zfill', 'center', 'ljust', 'rjust'):
        locals()[_n] = _no(_n)
    del _n, _no


class Value(object):
    """an arbitrary JSON value"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<any JSON value %s>' % self.name


def symbolic(o):
    if isinstance(o, Value):
        return True
    if isinstance(o, dict):
        return any(symbolic(k) or symbolic(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(map(symbolic, o))
    return False


def dumps(o, **kw):
    """contract of json.dumps: an ASCII text for a value; for a text, its characters escaped one by one"""
    for k, v in kw.items():
        if k not in ('separators', 'sort_keys', 'allow_nan', 'ensure_ascii', 'indent') or (k == 'ensure_ascii' and v is not True):
            unsupported('json.dumps(%s=...)' % k)
    if isinstance(o, str) and holes(o):
        return Text('"') + _map(o, lambda h: h.map(lambda t: _json.dumps(t)[1:-1]), lambda t: _json.dumps(t)[1:-1]) + '"'
    if symbolic(o):
        return Text(Hole(o, {c: c for c in PRINTABLE + (['\n'] if kw.get('indent') is not None else [])}).mark)
    return _json.dumps(o, **kw)


JSON = types.ModuleType('json')
JSON.__dict__.update({k: v for k, v in vars(_json).items() if not k.startswith('__')})
JSON.dumps = dumps


def fill(s, texts):
    """instance of symbolic text: texts maps a hole to the text it stands for"""
    return ''.join(''.join(_holes[c].image[x] for x in texts(_holes[c])) if c in _holes else c for c in s)
