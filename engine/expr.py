"""Symbolic real expressions.

`E` is a hash-consed expression DAG over the reals.  The repository's own code
builds these nodes while CPython executes it: numpy object arrays and the
numpy stand-in (npx.py) dispatch every arithmetic operation here.  Nothing is
approximated: machine floats met on the way become exact rationals (with the
float images of rational multiples of pi recognised as such).
"""
import math
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    """The code left the fragment the engine can interpret."""


class PathAbort(BaseException):
    """The current path was found infeasible or exceeds the budget."""


class State:
    """Engine state shared by the expression layer and the explorer."""
    decide = None          # callable(SymBool) -> bool, installed by the explorer
    unsupported = []       # messages (bare `except:` in the code cannot hide them)


def unsupported(msg):
    State.unsupported.append(msg)
    raise Unsupported(msg)


_table = {}
_keep = []


class E(object):
    __slots__ = ('op', 'args', 'id', 'segs', '__weakref__')


    # -- construction -----------------------------------------------------
    def __hash__(self):
        return self.id

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    def __pow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __mod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else modulo(self, o)

    def __rmod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else modulo(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floor(div(self, o))

    def __rfloordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floor(div(o, self))

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparison -------------------------------------------------------
    def __lt__(self, o):
        return cmp_('lt', self, o)

    def __le__(self, o):
        return cmp_('le', self, o)

    def __gt__(self, o):
        return cmp_('lt', o, self)

    def __ge__(self, o):
        return cmp_('le', o, self)

    def __eq__(self, o):
        return cmp_('eq', self, o)

    def __ne__(self, o):
        r = cmp_('eq', self, o)
        return NotImplemented if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions ------------------------------------------------------
    def __float__(self):
        v = const_value(self)
        if v is None:
            unsupported('float() of a symbolic value')
        return float(v)

    def __int__(self):
        if self.op == 'num':
            return int(self.args[0])
        unsupported('int() of a symbolic value')

    def __index__(self):
        if self.op == 'num' and self.args[0].denominator == 1:
            return int(self.args[0])
        unsupported('symbolic value used as an index')

    def __round__(self, n=None):
        unsupported('round() of a symbolic value')

    def __format__(self, spec):
        return '<sym%d>' % self.id

    def __repr__(self):
        return show(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        unsupported('pickling a symbolic value')

    # -- numpy scalar-like protocol (ufuncs on object arrays call these) ---
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def flatten(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    ravel = flatten

    def __getitem__(self, i):
        # numpy scalars accept newaxis/ellipsis indexing
        a = np.empty((), dtype=object)
        a[()] = self
        return a[i]

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return mul(self, self)

    def absolute(self):
        return fabs(self)

    fabs = absolute

    def sign(self):
        return sign(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return tan(self)

    def arcsin(self):
        return asin(self)

    def arccos(self):
        return acos(self)

    def arctan(self):
        return atan2(self, ONE)

    def arctan2(self, o):
        o = lift(o)
        return atan2(self, o)

    def hypot(self, o):
        o = lift(o)
        return sqrt(add(mul(self, self), mul(o, o)))

    def radians(self):
        return radians(self)

    deg2rad = radians

    def degrees(self):
        return degrees(self)

    rad2deg = degrees

    def sinh(self):
        return node('sinh', self)

    def cosh(self):
        return node('cosh', self)

    def arcsinh(self):
        return node('asinh', self)

    def exp(self):
        return ONE if self is ZERO else node('exp', self)

    def log(self):
        return ZERO if self is ONE else node('log', self)

    def floor(self):
        return floor(self)

    def ceil(self):
        return neg(floor(neg(self)))

    def rint(self):
        return floor(add(self, num(Fraction(1, 2))))

    def round(self, decimals=0, out=None):
        k = num(Fraction(10) ** int(decimals))
        return div(mul(self, k).rint(), k)

    def __round__(self, n=None):
        return self.round(n or 0)

    def trunc(self):
        return floor(self) if bool(self >= 0) else self.ceil()

    fix = trunc

    def isnan(self):
        return FALSE

    def isfinite(self):
        return TRUE

    def reciprocal(self):
        return div(ONE, self)


def node(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, E) else a for a in args)
    n = _table.get(key)
    if n is not None:
        return n
    n = E.__new__(E)
    n.op = op
    n.args = args
    n.id = len(_table) + 1
    if op == 'row':
        n.segs = frozenset([args[1]])
    elif op == 'sum':
        n.segs = args[1].segs - {args[0]}
    else:
        s = frozenset()
        for a in args:
            if isinstance(a, E) and a.segs:
                s = s | a.segs
        n.segs = s
    _table[key] = n
    _keep.append(n)
    return n


def num(v):
    return node('num', Fraction(v))


ZERO, ONE, TWO = num(0), num(1), num(2)
PI = node('pi')


def var(name):
    return node('var', name)


def row(name, seg):
    """generic-row variable of segment `seg`"""
    return node('row', name, seg)


def app(name, *args):
    return node('app', name, *args)


def _from_float(f):
    if f != f or f in (math.inf, -math.inf):
        unsupported('non-finite constant %r' % f)
    fr = Fraction(f)
    if f == 0 or fr.denominator <= 1 << 20:
        return num(fr)
    for expo in (1, -1):
        r = f / math.pi if expo == 1 else f * math.pi
        q = Fraction(r).limit_denominator(720)
        if q != 0 and abs(q.numerator) <= 720 and abs(r - float(q)) <= 3e-16 * abs(r):
            return mul(num(q), PI) if expo == 1 else mul(num(q), div(ONE, PI))
    # decimal literals: 0.95 means 19/20 to the reader and to the spec
    q = Fraction(repr(f))
    return num(q)


def lift(o):
    """Python / numpy scalar -> E (None when it is not a scalar)."""
    if isinstance(o, E):
        return o
    if isinstance(o, (bool, np.bool_)):
        return ONE if o else ZERO
    if isinstance(o, (int, np.integer)):
        return num(int(o))
    if isinstance(o, Fraction):
        return num(o)
    if isinstance(o, (float, np.floating)):
        return _from_float(float(o))
    if isinstance(o, SymBool):
        return ONE if bool(o) else ZERO
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o[()])
    return None


def add(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    if neg(a) is b:
        return ZERO
    return node('add', a, b)


def neg(a):
    if a.op == 'num':
        return num(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return node('neg', a)


def mul(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'num' and a.args[0] == -1:
        return neg(b)
    if b.op == 'num' and b.args[0] == -1:
        return neg(a)
    if a.id > b.id:
        a, b = b, a
    return node('mul', a, b)


def div(a, b):
    if b.op == 'num':
        if b.args[0] == 0:
            unsupported('division by zero')
        return mul(a, num(1 / b.args[0]))
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return node('div', a, b)


def power(a, b):
    if b.op == 'num':
        e = b.args[0]
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return div(ONE, power(a, num(-n)))
            r = ONE
            for _ in range(n):
                r = mul(r, a)
            return r
        if e.denominator == 2:
            n = e.numerator
            if n < 0:
                return div(ONE, power(a, num(-e)))
            r = sqrt(a)
            for _ in range((n - 1) // 2):
                r = mul(r, a)
            return r
    if a.op == 'num' and b.op == 'num':
        return _from_float(float(a.args[0]) ** float(b.args[0]))
    return node('pow', a, b)


def const_value(a):
    if a.op == 'num':
        return a.args[0]
    if not free(a):
        return evaluate([a], None)[0]
    return None


_free = {}


def free(e):
    """frozenset of leaf variables (var/row names) reachable from e"""
    r = _free.get(e.id)
    if r is not None:
        return r
    for n in topo([e]):
        if n.id in _free:
            continue
        if n.op in ('var', 'row'):
            _free[n.id] = frozenset([n])
        else:
            s = frozenset([n]) if n.op == 'app' and n.args[0].startswith('raster.') else frozenset()
            for a in n.args:
                if isinstance(a, E):
                    s = s | _free[a.id]
            _free[n.id] = s
    return _free[e.id]


def topo(roots):
    seen, order, stack = set(), [], [r for r in roots]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        order.append(n)
        for a in n.args:
            if isinstance(a, E):
                stack.append(a)
    order.sort(key=lambda n: n.id)
    return order


def _perfect(fr):
    if fr < 0:
        return None
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return Fraction(a, b)


def sqrt(a):
    if a.op == 'num':
        if a.args[0] < 0:
            unsupported('sqrt of a negative constant')
        r = _perfect(a.args[0])
        if r is not None:
            return num(r)
    return node('sqrt', a)


def fabs(a):
    if a.op == 'num':
        return num(abs(a.args[0]))
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == 'neg':
        return fabs(a.args[0])
    return node('abs', a)


def sign(a):
    if a.op == 'num':
        return num((a.args[0] > 0) - (a.args[0] < 0))
    if bool(a > 0):
        return ONE
    if bool(a < 0):
        return num(-1)
    return ZERO


def sin(a):
    return ZERO if a is ZERO else node('sin', a)


def cos(a):
    return ONE if a is ZERO else node('cos', a)


def tan(a):
    return ZERO if a is ZERO else div(node('sin', a), node('cos', a))


def asin(a):
    return ZERO if a is ZERO else node('asin', a)


def acos(a):
    return ZERO if a is ONE else node('acos', a)


def atan2(y, x):
    if y.op == 'num' and x.op == 'num':
        yy, xx = y.args[0], x.args[0]
        if yy == 0:
            return PI if xx < 0 else ZERO
        if xx == 0:
            return mul(num(Fraction(1, 2) if yy > 0 else Fraction(-1, 2)), PI)
    return node('atan2', y, x)


def radians(a):
    return div(mul(a, PI), num(180))


def degrees(a):
    return div(mul(a, num(180)), PI)


def floor(a):
    if a.op == 'num':
        return num(math.floor(a.args[0]))
    return node('floor', a)


def modulo(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] - b.args[0] * math.floor(a.args[0] / b.args[0]))
    return add(a, neg(mul(b, floor(div(a, b)))))


def seg_sum(seg, body):
    if body is ZERO:
        return ZERO
    return node('sum', seg, body)


def nonneg(e):
    """non-negative by its form: sums and products of squares, roots, absolute values"""
    if e.op == 'num':
        return e.args[0] >= 0
    if e.op == 'add':
        return nonneg(e.args[0]) and nonneg(e.args[1])
    if e.op in ('abs', 'sqrt', 'exp', 'cosh'):
        return True
    if e.op == 'sum':
        return nonneg(e.args[1])
    if e.op == 'mul':
        rest, todo = {}, list(e.args)
        while todo:
            f = todo.pop()
            if f.op == 'mul':
                todo.extend(f.args)
            elif rest.pop(f.id, None) is None:
                rest[f.id] = f
        return all(nonneg(f) for f in rest.values())
    return False


# ---------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        if self.op == 'const':
            return self.args[0]
        return State.decide(self)

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def logical_not(self):
        return not_(self)

    def all(self, *a, **k):
        return self

    any = all

    def key(self):
        return (self.op,) + tuple(a.key() if isinstance(a, SymBool) else
                                  (a.id if isinstance(a, E) else a)
                                  for a in self.args)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else not_(self)
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        if self.op in ('lt', 'le', 'eq'):
            return '(%s %s %s)' % (show(self.args[0]), dict(lt='<', le='<=', eq='==')[self.op],
                                   show(self.args[1]))
        return '%s%r' % (self.op, self.args)


TRUE, FALSE = SymBool('const', True), SymBool('const', False)


def cmp_(op, a, b):
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return NotImplemented
    if a is b:
        return FALSE if op == 'lt' else TRUE
    if not free(a) and not free(b):
        x, y = evaluate([a, b], None)
        if a.op == 'num' and b.op == 'num':
            x, y = a.args[0], b.args[0]
            return TRUE if {'lt': x < y, 'le': x <= y, 'eq': x == y}[op] else FALSE
        if abs(x - y) > 1e-9 * (abs(x) + abs(y)):
            return TRUE if {'lt': x < y, 'le': x <= y, 'eq': False}[op] else FALSE
    return SymBool(op, a, b)


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, E):
        return not_(cmp_('eq', x, ZERO))
    return TRUE if x else FALSE


def not_(a):
    a = tobool(a)
    if a.op == 'const':
        return FALSE if a.args[0] else TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return SymBool('le', a.args[1], a.args[0])
    if a.op == 'le':
        return SymBool('lt', a.args[1], a.args[0])
    return SymBool('not', a)


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a.op == 'const':
        return b if a.args[0] else FALSE
    if b.op == 'const':
        return a if b.args[0] else FALSE
    return SymBool('and', a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def bool_atoms(b, out=None):
    out = [] if out is None else out
    for a in b.args:
        if isinstance(a, SymBool):
            bool_atoms(a, out)
        elif isinstance(a, E):
            out.append(a)
    return out


# ---------------------------------------------------------------------------
# numeric evaluation

def evaluate(roots, sample, exact=False):
    """Evaluate expressions at a sample (object with value(node) for var/row and
    seg_len(seg)); exact: undo rounding at the ends of acos/asin; returns a list of floats (or arrays for row expressions)."""
    order = topo(roots)
    val = {}
    with np.errstate(all='ignore'):
        for n in order:
            op = n.op
            a = [val[x.id] if isinstance(x, E) else x for x in n.args]
            if op == 'num':
                v = float(n.args[0])
            elif op == 'pi':
                v = math.pi
            elif op in ('var', 'row'):
                v = sample.value(n)
            elif op == 'add':
                v = a[0] + a[1]
            elif op == 'neg':
                v = -a[0]
            elif op == 'mul':
                v = a[0] * a[1]
            elif op == 'div':
                v = np.divide(a[0], a[1])
            elif op == 'pow':
                v = np.power(a[0], a[1])
            elif op == 'sum':
                v = float(np.sum(np.broadcast_to(a[1], (sample.seg_len(n.args[0]),))))
            elif op == 'app':
                v = sample.apply(n.args[0], a[1:])
            else:
                if exact and op in ('acos', 'asin') and np.all(np.abs(a[0]) < 1 + 1e-12):
                    a = [np.clip(a[0], -1, 1)]
                v = _NUMF[op](*a)
            val[n.id] = v
    return [val[r.id] for r in roots]


_NUMF = dict(sqrt=np.sqrt, abs=np.abs, sin=np.sin, cos=np.cos, asin=np.arcsin,
             acos=np.arccos, atan2=np.arctan2, sinh=np.sinh, cosh=np.cosh,
             asinh=np.arcsinh, exp=np.exp, log=np.log, floor=np.floor)


def eval_bool(b, sample, tol=0.0):
    """True/False at a sample, or None when within tol of the boundary."""
    if b.op == 'const':
        return b.args[0]
    if b.op == 'not':
        r = eval_bool(b.args[0], sample, tol)
        return None if r is None else (not r)
    if b.op == 'and':
        x, y = (eval_bool(i, sample, tol) for i in b.args)
        if x is False or y is False:
            return False
        return None if x is None or y is None else True
    x, y = evaluate(list(b.args), sample)
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
        return None
    d = float(np.max(np.abs(np.asarray(x) - np.asarray(y))))
    if tol and d <= tol * (1 + abs(np.max(np.abs(x)))) and d != 0:
        return None
    if b.op == 'lt':
        return bool(np.all(x < y))
    if b.op == 'le':
        return bool(np.all(x <= y))
    return bool(np.all(x == y))


def margin(b, sample):
    """how far a condition is from its boundary: positive where it holds"""
    if b.op == 'const':
        return math.inf if b.args[0] else -math.inf
    if b.op == 'not':
        return -margin(b.args[0], sample)
    if b.op == 'and':
        return min(margin(i, sample) for i in b.args)
    x, y = (np.asarray(v, dtype=float) for v in evaluate(list(b.args), sample))
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
        return -math.inf
    return float(np.min(y - x)) if b.op in ('lt', 'le') else -float(np.max(np.abs(x - y)))


def show(e, depth=5):
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'num':
        return str(e.args[0])
    if e.op == 'pi':
        return 'pi'
    if e.op in ('var', 'row'):
        return e.args[0]
    if depth == 0:
        return '..'
    s = [show(a, depth - 1) if isinstance(a, E) else str(a) for a in e.args]
    if e.op == 'add':
        return '(%s + %s)' % tuple(s)
    if e.op == 'mul':
        return '%s*%s' % tuple(s)
    if e.op == 'div':
        return '%s/(%s)' % tuple(s)
    if e.op == 'neg':
        return '-%s' % s[0]
    return '%s(%s)' % (e.op, ', '.join(s))
