"""A stand-in for numpy (and numpy.linalg, scipy.stats, math) through which the
repository's code runs symbolically.

* fixed-size arrays are genuine numpy object arrays whose elements are E;
* an n x k data array with *symbolic* n is a RowArr: one generic row per
  segment; reductions over rows become Sum nodes (so n is unbounded);
* linalg.svd / eigh, the quantile functions and linspace are used through
  contracts (assumed; listed in the evidence), everything else is executed.
"""
import builtins
import functools
import math as _math
import types

import numpy as np

from . import expr as X
from .expr import E, SymBool, lift, unsupported, ZERO, ONE, num, PI


class Ctx:
    """current path; installed by vc.py"""
    path = None


def has_sym(x, depth=0):
    if isinstance(x, (E, RowArr, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth + 1) for i in x)
    return False


def has_row(x, depth=0):
    if isinstance(x, RowArr):
        return True
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_row(i, depth + 1) for i in x)
    return False


_liftv = np.frompyfunc(lambda v: _lift1(v), 1, 1)


def _lift1(v):
    if isinstance(v, (SymBool, np.bool_, bool)):
        return v
    r = lift(v)
    if r is None:
        unsupported('array element %r' % (type(v),))
    return r


def sym(a):
    """object array of E with the same shape (subclass kept)"""
    if isinstance(a, RowArr):
        return a
    if isinstance(a, E):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            flat = a.ravel()
            if all(isinstance(v, E) for v in flat):
                return a
        elif a.dtype.kind not in 'fiub':
            return a
        o = np.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        for i, v in enumerate(np.asarray(a).ravel()):
            of[i] = _lift1(v)
        o = of.reshape(a.shape)
        return o.view(type(a)) if type(a) is not np.ndarray else o
    if isinstance(a, (list, tuple)) and has_row(a):
        return _stack_rows(a)
    if isinstance(a, (list, tuple)):
        parts = [sym(i) for i in a]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape if hasattr(parts[0], 'shape') else ()
        for p in parts:
            if getattr(p, 'shape', ()) != shp:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        o = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p[()] if shp == () else p
        return o
    if isinstance(a, types.GeneratorType):
        return sym(list(a))
    if a is None or isinstance(a, str):
        unsupported('array of %r' % type(a))
    v = lift(a)
    if v is None:
        unsupported('array of %r' % type(a))
    return sym(v)


def wrap_out(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            return sym(r)
        if r.ndim == 0 and r.dtype == object:
            return r[()]
        return r
    if isinstance(r, (np.floating,)):
        return lift(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap_out(i) for i in r)
    if isinstance(r, list):
        return [wrap_out(i) for i in r]
    return r


def prep(a):
    if isinstance(a, (list, tuple)) and has_sym(a):
        if has_row(a):
            return a
        try:
            return sym(a)
        except ValueError:
            return type(a)(prep(i) for i in a)
    return a


# ---------------------------------------------------------------------------
class RowArr(object):
    """array with one symbolic-length axis.  cells[i] is the generic row of
    segment i (object array of the trailing shape)."""
    __array_ufunc__ = None
    __hash__ = None
    dtype = np.dtype(float)

    def __init__(self, segs, cells, pos=0, rev=False):
        self.segs = tuple(segs)
        self.cells = list(cells)
        self.pos = pos
        self.rev = rev

    # -- shape ---------------------------------------------------------------
    @property
    def n(self):
        t = ZERO
        for s in self.segs:
            t = t + Ctx.path.seg_len(s)
        Ctx.path.len_index[t.id] = self.segs
        return t

    @property
    def trail(self):
        return self.cells[0].shape

    @property
    def shape(self):
        t = list(self.trail)
        t.insert(self.pos if self.pos >= 0 else len(t), self.n)
        return tuple(t)

    @property
    def ndim(self):
        return len(self.trail) + 1

    @property
    def size(self):
        t = self.n
        for k in self.trail:
            t = t * k
        return t

    def _new(self, cells, pos=None):
        return RowArr(self.segs, cells, self.pos if pos is None else pos, self.rev)

    def round(self, decimals=0, out=None):
        return self.map(lambda e: e.round(decimals))

    def copy(self, *a, **k):
        return self._new([c.copy() for c in self.cells])

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def view(self, *a):
        return self

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.ndim != 2:
            unsupported('transpose of a 3-d data array')
        return self._new(self.cells, 1 - self.pos)

    def transpose(self, *axes):
        return self.T

    def swapaxes(self, a, b):
        return self.T if a != b else self

    def tolist(self):
        return SymList(self.copy())

    @property
    def data(self):
        return self

    def tobytes(self):
        return repr([[e.id for e in c.ravel()] for c in self.cells]).encode()

    @property
    def flat(self):
        unsupported('flat iterator of a data array')

    def reshape(self, *a):
        unsupported('reshape of a data array')

    def __len__(self):
        unsupported('len() of a data array outside the instrumented builtins')

    def __iter__(self):
        if self.pos == 0:
            unsupported('iteration over the rows of a data array')
        return iter([self[i] for i in range(self.trail[0])])

    def __bool__(self):
        unsupported('truth value of a data array')

    # -- indexing -------------------------------------------------------------
    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            nk = len([k for k in key if k is not None and k is not Ellipsis])
            key = key[:i] + (slice(None),) * (self.ndim - nk) + key[i + 1:]
        key = tuple(self._fullslice(k) for k in key)
        return key

    def _fullslice(self, k):
        if isinstance(k, slice) and isinstance(k.stop, E) and k.stop is self.n:
            return slice(k.start, None, k.step)
        if isinstance(k, E):
            return k.__index__()
        return k

    def __getitem__(self, key):
        if hasattr(key, '_rowbool'):
            return key.select(self)
        key = self._key(key)
        # position of the symbolic axis within the key
        axis, out, rowkey, newpos, cnt = 0, [], slice(None), None, 0
        for k in key:
            if k is None:
                out.append(None)
                cnt += 1
                continue
            if axis == self.pos:
                rowkey = k
                newpos = cnt
            else:
                out.append(k)
                if isinstance(k, slice):
                    cnt += 1
                elif not isinstance(k, (int, np.integer)):
                    unsupported('fancy indexing of a data array')
            axis += 1
        if newpos is None:
            newpos = cnt + (self.pos - axis)
        cells = [c[tuple(out) + (Ellipsis,)] for c in self.cells]
        if isinstance(rowkey, slice):
            r = RowArr(self.segs, cells, newpos, self.rev)
            if rowkey == slice(None):
                return r
            if rowkey.start is None and rowkey.stop is None and rowkey.step == -1:
                r.rev = not r.rev
                return r
            unsupported('slicing rows of a data array')
        if isinstance(rowkey, (int, np.integer)):
            return self._pick(cells, int(rowkey))
        unsupported('row selection %r' % (rowkey,))

    def _pick(self, cells, i):
        if self.rev:
            i = -1 - i
        seg, c = (self.segs[0], cells[0]) if i >= 0 else (self.segs[-1], cells[-1])
        o = np.empty(c.shape, dtype=object)
        for idx in np.ndindex(*c.shape):
            o[idx] = c[idx] if not c[idx].segs else X.node('rowat', seg, c[idx], i)
        return o if o.ndim else o[()]

    def __setitem__(self, key, value):
        tgt = self[key]
        if not isinstance(tgt, RowArr):
            unsupported('assignment to single rows')
        if isinstance(value, RowArr):
            if value.segs != tgt.segs or value.pos != tgt.pos:
                unsupported('assignment between differently shaped data arrays')
            for c, v in zip(tgt.cells, value.cells):
                c[...] = v
        else:
            v = sym(value)
            v = v[()] if v.ndim == 0 else tgt._align(v)
            for c in tgt.cells:
                c[...] = v

    # -- elementwise -------------------------------------------------------------
    def _align(self, o):
        """fixed array -> trail shape"""
        nd = len(self.trail)
        if o.ndim == 0:
            return o
        if self.pos == 0:
            if o.ndim == nd + 1:
                if o.shape[0] != 1:
                    unsupported('fixed array of %r against data rows' % (o.shape,))
                return o[0]
            if o.ndim <= nd:
                return o
        elif self.pos == nd:
            if o.shape[-1] == 1:
                return o[..., 0]
        unsupported('broadcast of %r against a data array' % (o.shape,))

    def _bin(self, o, f, swap=False):
        if isinstance(o, RowArr):
            if o.segs != self.segs or o.rev != self.rev:
                unsupported('arithmetic between different data segments')
            if o.pos != self.pos:
                if o.ndim == 1 and self.ndim == 2 and self.pos == 1:
                    return self._new([f(c, d[()]) if not swap else f(d[()], c) for c, d in zip(self.cells, o.cells)])
                if self.ndim == 1 and o.ndim == 2 and o.pos == 1:
                    return o._bin(self, f, not swap)
                unsupported('arithmetic between transposed data arrays')
            if o.ndim != self.ndim and self.pos == 0:
                unsupported('broadcast between data arrays')
            cells = [f(c, d) if not swap else f(d, c) for c, d in zip(self.cells, o.cells)]
        else:
            if isinstance(o, (list, tuple)):
                o = sym(o)
            if not isinstance(o, np.ndarray):
                o = lift(o)
                if o is None:
                    return NotImplemented
                d = o
            else:
                d = self._align(sym(o))
                if d.ndim == 0:
                    d = d[()]
            cells = [f(c, d) if not swap else f(d, c) for c in self.cells]
        return self._new([as_cell(c) for c in cells])

    def map(self, f):
        out = []
        for c in self.cells:
            o = np.empty(c.shape, dtype=object)
            for idx in np.ndindex(*c.shape):
                o[idx] = f(c[idx])
            out.append(o)
        return self._new(out)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __neg__(self): return self.map(X.neg)
    def __pos__(self): return self
    def __abs__(self): return self.map(X.fabs)

    def _inplace(self, o, f):
        r = f(self, o)
        if r is NotImplemented:
            return r
        for c, d in zip(self.cells, r.cells):
            c[...] = d
        return self

    def __iadd__(self, o): return self._inplace(o, RowArr.__add__)
    def __isub__(self, o): return self._inplace(o, RowArr.__sub__)
    def __imul__(self, o): return self._inplace(o, RowArr.__mul__)
    def __itruediv__(self, o): return self._inplace(o, RowArr.__truediv__)

    def __lt__(self, o): return RowCmp(self - o, 'lt')
    def __le__(self, o): return RowCmp(self - o, 'le')
    def __gt__(self, o): return RowCmp(self - o, 'le', True)
    def __ge__(self, o): return RowCmp(self - o, 'lt', True)
    def __eq__(self, o): return RowCmp(abs(self - o), 'le')
    def __ne__(self, o): return RowCmp(abs(self - o), 'le', True)

    # -- linear algebra --------------------------------------------------------
    def __matmul__(self, o): return rdot(self, o)
    def __rmatmul__(self, o): return rdot(o, self)
    def dot(self, o): return rdot(self, o)

    # -- reductions ----------------------------------------------------------------
    def _axis(self, axis):
        return None if axis is None else int(axis) % self.ndim

    def sum(self, axis=None, keepdims=False, dtype=None, **k):
        axis = self._axis(axis)
        if axis is None or axis == self.pos:
            o = np.empty(self.trail, dtype=object)
            for idx in np.ndindex(*self.trail):
                t = ZERO
                for s, c in zip(self.segs, self.cells):
                    b = c[idx]
                    t = t + (X.seg_sum(s, b) if b.segs else b * Ctx.path.seg_len(s))
                o[idx] = t
            if axis is None:
                r = o.sum() if o.ndim else o[()]
                return r
            if keepdims:
                o = np.expand_dims(o, self.pos)
            return o if o.ndim else o[()]
        taxis = axis - 1 if axis > self.pos else axis
        cells = [as_cell(np.sum(c, axis=taxis, keepdims=keepdims)) for c in self.cells]
        return self._new(cells, self.pos if keepdims or axis > self.pos else self.pos - 1)

    def mean(self, axis=None, keepdims=False, dtype=None, **k):
        a = self._axis(axis)
        s = self.sum(axis, keepdims=keepdims)
        if a is None:
            return s / self.size
        return s / self.shape[a]

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        a = self._axis(axis)
        if a is None or a != self.pos:
            unsupported('variance along a fixed axis')
        m = self.mean(axis=a)
        if self.pos == 0:
            d = self - m
        else:
            d = self - m[..., np.newaxis]
        r = (d * d).sum(axis=a) / (self.n - ddof)
        return r[np.newaxis] if keepdims else r

    def std(self, axis=None, ddof=0, **k):
        return u_sqrt(self.var(axis, ddof=ddof))

    def min(self, axis=None, **k):
        return self._ext('min', axis, k.get('keepdims', False))

    def max(self, axis=None, **k):
        return self._ext('max', axis, k.get('keepdims', False))

    def _ext(self, kind, axis, keepdims=False):
        axis = self._axis(axis)
        if hasattr(Ctx.path, 'raster'):
            unsupported('min/max over pixels')
        if axis is not None and axis != self.pos:
            unsupported('min/max along a fixed axis')
        o = np.empty(self.trail, dtype=object)
        for idx in np.ndindex(*self.trail):
            o[idx] = Ctx.path.extreme(kind, [(s, c[idx]) for s, c in zip(self.segs, self.cells)])
        if axis is None:
            return functools.reduce(_max2 if kind == 'max' else _min2, o.ravel())
        if keepdims:
            return np.expand_dims(o, self.pos)
        return o if o.ndim else o[()]

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, *a, **k):
        unsupported('any over a data array')

    all = argmax = argmin = sort = any


class RowCmp(object):
    """comparison of each element with zero (or its negation)"""

    def __init__(self, arr, op, negated=False):
        self.arr, self.op, self.negated = arr, op, negated

    def __invert__(self):
        return RowCmp(self.arr, self.op, not self.negated)

    def _quantified(self, every, axis):
        if axis is not None and self.arr.ndim > 1:
            unsupported('any/all along one axis of a data array')
        # all are below zero if the largest is; with a negation, if not even the smallest is
        e = self.arr.min() if every == self.negated else self.arr.max()
        c = X.cmp_(self.op, e, ZERO)
        return X.not_(c) if self.negated else c

    def all(self, axis=None, **k):
        return self._quantified(True, axis)

    def any(self, axis=None, **k):
        return self._quantified(False, axis)

    def __bool__(self):
        unsupported('truth value of a comparison of data arrays')

    def __getattr__(self, k):
        unsupported('%s of a comparison of data arrays' % k)


class SymList(object):
    """result of RowArr.tolist()"""

    def __init__(self, arr):
        self.arr = arr


def as_cell(c):
    if isinstance(c, np.ndarray):
        return c
    o = np.empty((), dtype=object)
    o[()] = c
    return o


def rdot(a, b):
    if not isinstance(a, RowArr) and not isinstance(b, RowArr):
        return np.dot(sym(a), sym(b))
    if isinstance(a, RowArr) and isinstance(b, RowArr):
        if a.segs != b.segs or a.rev != b.rev:
            unsupported('product of different data segments')
        if a.pos == a.ndim - 1 and b.pos == 0:
            shp = a.trail + b.trail
            o = np.empty(shp, dtype=object)
            for i in np.ndindex(*a.trail):
                for j in np.ndindex(*b.trail):
                    t = ZERO
                    for s, c, d in zip(a.segs, a.cells, b.cells):
                        v = c[i] * d[j]
                        t = t + (X.seg_sum(s, v) if v.segs else v * Ctx.path.seg_len(s))
                    o[i + j] = t
            return o if o.ndim else o[()]
        unsupported('outer product of data arrays')
    if isinstance(a, RowArr):
        if not isinstance(b, np.ndarray):
            v = lift(b)
            if v is not None:
                return a * v
            b = sym(b)
        if b.ndim == 0:
            return a * b[()]
        if a.pos == 0 and a.ndim == 2:
            b = np.asarray(sym(b))
            return a._new([as_cell(np.dot(c, b)) for c in a.cells])
        unsupported('dot of a data array with a fixed array')
    if not isinstance(a, np.ndarray):
        v = lift(a)
        if v is not None:
            return b * v
        a = sym(a)
    if a.ndim == 0:
        return b * a[()]
    if b.pos == 1 and b.ndim == 2:
        a = np.asarray(sym(a))
        if a.ndim == 1:
            return RowArr(b.segs, [as_cell(np.dot(a, c)) for c in b.cells], 0, b.rev)
        return RowArr(b.segs, [as_cell(np.dot(a, c)) for c in b.cells], 1, b.rev)
    unsupported('dot of a fixed array with a data array')


def _stack_rows(parts, axis=0):
    """np.array / np.stack of 1-d data arrays -> (k, n)"""
    parts = [p for p in parts]
    base = [p for p in parts if isinstance(p, RowArr)][0]
    if base.ndim != 1:
        unsupported('stacking of 2-d data arrays')
    cols = []
    for p in parts:
        if not isinstance(p, RowArr) or p.segs != base.segs or p.ndim != 1 or p.rev != base.rev:
            unsupported('stacking a data column with something else')
        cols.append(p)
    cells = []
    for i in range(len(base.segs)):
        o = np.empty((len(cols),), dtype=object)
        for j, c in enumerate(cols):
            o[j] = c.cells[i][()]
        cells.append(o)
    return RowArr(base.segs, cells, 1, base.rev)


def _side_by_side(parts):
    """(k, n) and (n,) data arrays over the same rows -> (sum of k, n); None if they are not of that kind"""
    base = parts[0]
    for p in parts:
        if not isinstance(p, RowArr) or p.segs != base.segs or p.rev != base.rev:
            return None
        if p.ndim != 1 and not (p.ndim == 2 and p.pos == 1):
            return None
    cells = []
    for i in range(len(base.segs)):
        cells.append(np.concatenate([np.atleast_1d(p.cells[i]) for p in parts]))
    return RowArr(base.segs, cells, 1, base.rev)


def vstack_rows(parts):
    r = _side_by_side(list(parts))
    if r is not None:
        return r
    segs, cells = [], []
    for p in parts:
        if not isinstance(p, RowArr):
            unsupported('vstack of data and fixed arrays')
        if p.ndim == 1:
            return _stack_rows(parts)
        if p.pos != 0 or p.rev:
            unsupported('vstack of transposed data arrays')
        segs += list(p.segs)
        cells += [c.copy() for c in p.cells]
    if len(set(segs)) != len(segs):
        Ctx.path.note('a data segment occurs twice in one array')
    return RowArr(segs, cells)


# ---------------------------------------------------------------------------
def ufunc(name, f1=None):
    """unary elementwise function via E method"""
    def f(x, *rest, **kw):
        if rest or any(k not in ('dtype',) for k in kw):
            if 'out' in kw and kw['out'] is not None:
                out = kw['out']
                out = out[0] if isinstance(out, tuple) else out
                out[...] = f(x)
                return out
            if kw or rest:
                unsupported('%s with extra arguments' % name)
        if isinstance(x, RowArr):
            return x.map(lambda e: getattr(e, name)())
        if isinstance(x, (list, tuple)) and has_row(x):
            return f(sym(x))
        a = sym(x)
        if a.ndim == 0:
            return getattr(a[()], name)()
        o = np.empty(a.shape, dtype=object)
        fl, af = o.reshape(-1), np.asarray(a).reshape(-1)
        for i in range(af.size):
            fl[i] = getattr(af[i], name)()
        o = fl.reshape(a.shape)
        return o.view(type(a)) if type(a) is not np.ndarray else o
    f.__name__ = name
    return f


def binary(fn, name):
    def f(a, b, *rest, **kw):
        if rest or kw:
            if set(kw) == {'out'}:
                kw['out'][...] = f(a, b)
                return kw['out']
            unsupported('%s with extra arguments' % name)
        if isinstance(a, (list, tuple)):
            a = sym(a)
        if isinstance(b, (list, tuple)):
            b = sym(b)
        if isinstance(a, RowArr):
            return a._bin(b, np.frompyfunc(fn, 2, 1))
        if isinstance(b, RowArr):
            return b._bin(a, np.frompyfunc(fn, 2, 1), True)
        a, b = sym(a), sym(b)
        if a.ndim == 0 and b.ndim == 0:
            return fn(a[()], b[()])
        return np.frompyfunc(fn, 2, 1)(a, b)
    f.__name__ = name
    return f


u_sqrt = ufunc('sqrt')


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


def _max2(a, b):
    return a if bool(a >= b) else b


def _min2(a, b):
    return a if bool(a <= b) else b


class Proxy(object):
    """module-like object; unknown names fall through to the real module"""

    def __init__(self, real, table):
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table

    def __getattr__(self, k):
        t = self._table
        if k in t:
            return t[k]
        v = getattr(self._real, k)
        if isinstance(v, (types.BuiltinFunctionType, types.FunctionType, np.ufunc)) or \
                (callable(v) and not isinstance(v, type)):
            v = generic(v, k)
        elif isinstance(v, types.ModuleType):
            v = Proxy(v, {})
        elif isinstance(v, float):
            v = lift(v) if v == v and abs(v) != _math.inf else v
        t[k] = v
        return v

    def __dir__(self):
        return dir(self._real)


def generic(fn, name):
    @functools.wraps(fn, updated=())
    def g(*a, **k):
        if any(has_row(i) for i in a) or any(has_row(i) for i in k.values()):
            unsupported('%s on a symbolic-length array' % name)
        symb = any(has_sym(i) for i in a) or any(has_sym(i) for i in k.values())
        if symb and isinstance(fn, np.ufunc):
            a = [sym(prep(i)) if not isinstance(i, (str, type(None))) else i for i in a]
        else:
            a = [prep(i) for i in a]
        k.pop('dtype', None) if symb else None
        try:
            return wrap_out(fn(*a, **k))
        except (TypeError, AttributeError) as err:
            if symb:
                unsupported('%s: %s' % (name, err))
            raise
    return g


# -- constructors ---------------------------------------------------------------
def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(s)
    return (s,)


def _fill(shape, val):
    shape = _shape(shape)
    if any(isinstance(i, E) and i.op != 'num' for i in shape):
        pos = [isinstance(i, E) and i.op != 'num' for i in shape].index(True)
        segs = Ctx.path.len_index.get(shape[pos].id)
        if segs is None:
            unsupported('array of unknown symbolic length')
        trail = tuple(int(i) for j, i in enumerate(shape) if j != pos)
        return RowArr(segs, [_fill(trail, val) if trail else as_cell(val) for _ in segs], pos)
    shape = tuple(int(i) for i in shape)
    o = np.empty(shape, dtype=object)
    o[...] = val
    return o


def x_array(x, *a, **k):
    if isinstance(x, RowArr):
        return x.copy()
    if isinstance(x, SymList):
        return x.arr.copy()
    if isinstance(x, np.ndarray):
        return np.array(sym(x))
    if isinstance(x, str):
        return np.array(x, *a, **k)
    return np.array(sym(x)) if not has_row(x) else sym(x)


def x_asarray(x, *a, **k):
    if isinstance(x, RowArr):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(np.ndarray)
    return x_array(x)


def x_zeros(s, *a, **k):
    return _fill(s, ZERO)


def x_ones(s, *a, **k):
    return _fill(s, ONE)


def x_full(s, v, *a, **k):
    return _fill(s, lift(v))


def _like(val):
    def f(x, *a, **k):
        v = val if val is not None else lift(a[0])
        if isinstance(x, RowArr):
            return x._new([_fill(c.shape, v) if c.shape else as_cell(v) for c in x.cells])
        x = sym(x)
        o = _fill(x.shape, v)
        return o.view(type(x)) if type(x) is not np.ndarray else o
    return f


def x_eye(n, m=None, k=0, **kw):
    return sym(np.eye(int(n), None if m is None else int(m), k))


def x_linspace(a, b, n=50, endpoint=True, **k):
    """contract of linspace(a, b, n), used through its ends and two generic members
    (indices i < j of an arbitrary-length run): a <= u_i < u_j <= b"""
    if k:
        X.unsupported('linspace with options')
    return Ctx.path.linspace(lift(a), lift(b), n, endpoint)


def x_diag(v, k=0):
    if isinstance(v, RowArr):
        unsupported('diag of a data array')
    v = sym(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        o = _fill((n, n), ZERO)
        for i in range(v.shape[0]):
            o[i + max(0, -k), i + max(0, k)] = v[i]
        return o
    return np.diagonal(v, k).copy()


def x_sum(a, axis=None, **k):
    if isinstance(a, RowArr):
        return a.sum(axis=axis, **k)
    return np.sum(sym(a), axis=axis, **k)


def x_mean(a, axis=None, **k):
    if isinstance(a, RowArr):
        return a.mean(axis=axis, **k)
    return sym(a).mean(axis=axis)


def x_var(a, axis=None, ddof=0, **k):
    if isinstance(a, RowArr):
        return a.var(axis=axis, ddof=ddof)
    a = np.asarray(sym(a))
    m = a.mean(axis=axis, keepdims=True)
    d = (a - m)
    n = a.size if axis is None else a.shape[axis]
    return (d * d).sum(axis=axis) / (n - ddof)


def x_std(a, axis=None, ddof=0, **k):
    return u_sqrt(x_var(a, axis, ddof))


def x_cov(a, rowvar=True, ddof=1, **k):
    if not isinstance(a, RowArr) or k:
        unsupported('cov')
    if a.pos == 0:
        if rowvar:
            unsupported('cov across rows')
    elif rowvar:
        a = a.T
    d = a - a.mean(axis=0)
    return rdot(d.T, d) / (a.n - ddof)


def x_dot(a, b):
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        return rdot(a, b)
    a, b = sym(a), sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap_out(a * b)
    return _note_dot(a, b, np.dot(a, b))


def _note_dot(a, b, r):
    # remembered for the Cauchy-Schwarz rule
    if a.ndim == 1 and b.ndim == 1 and isinstance(r, E) and Ctx.path is not None:
        Ctx.path.dots.setdefault(r.id, (a.copy(), b.copy()))
    return r


def x_matmul(a, b):
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        return rdot(a, b)
    a, b = sym(a), sym(b)
    return _note_dot(a, b, np.matmul(a, b))


def x_cross(a, b, *r, **k):
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        unsupported('cross product of data rows')
    return np.cross(sym(a), sym(b), *r, **k)


def x_vstack(parts, **k):
    parts = list(parts)
    if has_row(parts):
        return vstack_rows(parts)
    return np.vstack([sym(p) for p in parts])


def x_column_stack(parts, **k):
    parts = list(parts)
    if has_row(parts):
        r = _side_by_side([p.T if isinstance(p, RowArr) and p.ndim == 2 else p for p in parts])
        return (_stack_rows(parts) if r is None else r).T
    return np.column_stack([sym(p) for p in parts])


def x_concatenate(parts, axis=0, **k):
    parts = list(parts)
    if has_row(parts):
        two = all(isinstance(p, RowArr) and p.ndim == 2 for p in parts)
        if axis == 0 and two:
            return vstack_rows(parts)
        r = _side_by_side([p.T for p in parts]) if two and axis in (1, -1) else None
        if r is not None:
            return r.T
        unsupported('concatenate of data arrays')
    return np.concatenate([sym(p) for p in parts], axis=axis)


def x_append(a, b, axis=None):
    if has_row([a, b]):
        unsupported('append to a data array')
    return np.append(sym(a), sym(b), axis=axis)


def x_transpose(a, axes=None):
    if isinstance(a, RowArr):
        return a.T
    return np.transpose(sym(a), axes)


def x_swapaxes(a, i, j):
    return a.swapaxes(i, j) if isinstance(a, RowArr) else np.swapaxes(sym(a), i, j)


def x_where(c, *r):
    if not r:
        return np.where(np.asarray(c, dtype=bool))
    if isinstance(c, (SymBool, E)):
        return r[0] if bool(c) else r[1]
    c = np.asarray(c)
    if c.dtype == object:
        c = np.frompyfunc(bool, 1, 1)(c).astype(bool)
    return np.where(c, sym(r[0]), sym(r[1]))


def x_clip(a, lo=None, hi=None, *r, **k):
    lo = k.pop('a_min', lo)
    hi = k.pop('a_max', hi)
    def f(v):
        if lo is not None and bool(v < lo):
            return lift(lo)
        if hi is not None and bool(v > hi):
            return lift(hi)
        return v
    if isinstance(a, RowArr):
        unsupported('clip of a data array')
    a = sym(a)
    if a.ndim == 0:
        return f(a[()])
    return np.frompyfunc(f, 1, 1)(a)


def x_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_row([a, b]):
        unsupported('allclose on a data array')
    a, b = np.broadcast_arrays(sym(a), sym(b))
    for x, y in zip(a.ravel(), b.ravel()):
        if not bool(_isclose(x, y, lift(rtol), lift(atol))):
            return False
    return True


def x_shape(a):
    return a.shape if isinstance(a, RowArr) else np.shape(sym(a))


def x_copy(a, *r, **k):
    return a.copy() if isinstance(a, RowArr) else np.array(sym(a))


def x_isnan(a, *r, **k):
    if isinstance(a, RowArr):
        unsupported('isnan of a data array')
    a = sym(a)
    return False if a.ndim == 0 else np.zeros(a.shape, dtype=bool)


def x_isfinite(a, *r, **k):
    a = sym(a)
    return True if a.ndim == 0 else np.ones(a.shape, dtype=bool)


def x_roll(a, *r, **k):
    return np.roll(sym(a), *r, **k)


def x_einsum(spec, *ops, **k):
    if has_row(list(ops)):
        unsupported('einsum on a data array')
    return wrap_out(np.einsum(spec, *[sym(o) for o in ops]))


def x_diagonal(a, *r, **k):
    return np.diagonal(sym(a), *r, **k)


# -- linalg ------------------------------------------------------------------
def l_norm(x, ord=None, axis=None, keepdims=False):
    if isinstance(x, (list, tuple)):
        x = sym(x)
    nd = x.ndim if isinstance(x, RowArr) else sym(x).ndim
    if axis is None and nd == 1 or axis is not None:
        if ord not in (None, 2) and not (isinstance(ord, E) and ord is num(2)):
            unsupported('norm of order %r' % (ord,))
    elif ord not in (None, 'fro'):
        unsupported('matrix norm %r' % (ord,))
    if isinstance(x, RowArr):
        return u_sqrt((x * x).sum(axis=axis, keepdims=keepdims))
    x = np.asarray(sym(x))
    if x.ndim == 0:
        return X.fabs(x[()])
    s = np.sum(x * x, axis=axis, keepdims=keepdims)
    return u_sqrt(s)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    t = ZERO
    for j in range(n):
        if m[0, j] is ZERO:
            continue
        c = _det(np.delete(np.delete(m, 0, 0), j, 1))
        t = t + m[0, j] * c if j % 2 == 0 else t - m[0, j] * c
    return t


def l_det(m):
    return _det(np.asarray(sym(m)))


def l_inv(m):
    if isinstance(m, RowArr):
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    cls = type(m)
    m = np.asarray(sym(m))
    n = m.shape[0]
    if m.ndim != 2 or m.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    d = _det(m)
    Ctx.path.nonzero(d, 'matrix inverse')
    o = np.empty((n, n), dtype=object)
    if n == 1:
        o[0, 0] = ONE / m[0, 0]
    else:
        for i in range(n):
            for j in range(n):
                c = _det(np.delete(np.delete(m, j, 0), i, 1))
                c = c if (i + j) % 2 == 0 else -c
                o[i, j] = c / d
    return o.view(cls) if issubclass(cls, np.ndarray) and cls is not np.ndarray else o


def l_solve(a, b):
    return np.dot(np.asarray(l_inv(np.asarray(sym(a)))), sym(b))


def l_lstsq(a, b, rcond=None):
    a, b = (a if isinstance(a, RowArr) else np.asarray(sym(a))), b if isinstance(b, RowArr) else sym(b)
    at = a.T
    x = x_dot(l_inv(x_dot(at, a)), x_dot(at, b))
    return x, None, None, None


def l_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    return Ctx.path.svd(a, full_matrices, compute_uv)


def l_eigh(a, *r, **k):
    return Ctx.path.eigh(a)


def l_eigvalsh(a, *r, **k):
    return Ctx.path.eigh(a)[0]


def l_matrix_rank(a, *r, **k):
    unsupported('matrix_rank')


class _Dist(object):
    def __init__(self, name, real):
        self._name = name
        self._real = real

    def ppf(self, q, *a, **k):
        a = list(a) + list(k.values())
        args = [lift(q)] + [lift(i) for i in a]
        if any(i is None for i in args):
            unsupported('%s.ppf of arrays' % self._name)
        return Ctx.path.quantile(self._name, args)

    def isf(self, q, *a, **k):
        return self.ppf(1 - q, *a, **k)

    def __getattr__(self, k):
        unsupported('scipy.stats.%s.%s' % (self._name, k))


def x_outer(a, b):
    if isinstance(a, RowArr) and isinstance(b, RowArr):
        unsupported('outer product of data arrays')
    if isinstance(a, RowArr):
        if a.ndim != 1:
            unsupported('outer of a 2-d data array')
        b = np.asarray(sym(b)).reshape(-1)
        return RowArr(a.segs, [np.multiply.outer(c, b) for c in a.cells], 0, a.rev)
    if isinstance(b, RowArr):
        if b.ndim != 1:
            unsupported('outer of a 2-d data array')
        a = np.asarray(sym(a)).reshape(-1)
        return RowArr(b.segs, [np.multiply.outer(a, c) for c in b.cells], 1, b.rev)
    a, b = np.asarray(sym(a)).reshape(-1), np.asarray(sym(b)).reshape(-1)
    return np.multiply.outer(a, b)


def x_inner(a, b):
    if isinstance(b, RowArr):
        return x_dot(a, b.T if b.ndim == 2 else b)
    if not np.ndim(a) or not np.ndim(b):
        return x_dot(a, b)
    b = sym(b)
    return x_dot(a, np.swapaxes(b, -1, -2) if b.ndim > 1 else b)


def x_vdot(a, b):
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        return x_sum(a * b)
    return x_dot(np.asarray(sym(a)).reshape(-1), np.asarray(sym(b)).reshape(-1))


_rint = ufunc('rint')


def x_round(a, decimals=0, out=None):
    if isinstance(a, (RowArr, X.E)):
        return a.round(decimals)
    a = np.asarray(sym(a))
    k = lift(10) ** int(decimals) if decimals >= 0 else 1 / lift(10) ** int(-decimals)
    return _rint(a * k) / k


def build():
    U = {k: ufunc(m) for k, m in dict(
        sqrt='sqrt', square='square', sin='sin', cos='cos', tan='tan', arcsin='arcsin',
        arccos='arccos', arctan='arctan', sinh='sinh', cosh='cosh', arcsinh='arcsinh',
        exp='exp', log='log', radians='radians', deg2rad='radians', degrees='degrees',
        rad2deg='degrees', abs='__abs__', absolute='__abs__', fabs='__abs__', sign='sign',
        negative='__neg__', floor='floor', ceil='ceil', rint='rint', trunc='trunc', fix='trunc', reciprocal='reciprocal',
        conjugate='conjugate', conj='conjugate').items()}
    B = dict(
        arctan2=binary(X.atan2, 'arctan2'),
        hypot=binary(lambda a, b: X.sqrt(a * a + b * b), 'hypot'),
        add=binary(X.add, 'add'), subtract=binary(lambda a, b: a - b, 'subtract'),
        multiply=binary(X.mul, 'multiply'), divide=binary(X.div, 'divide'),
        true_divide=binary(X.div, 'true_divide'), power=binary(X.power, 'power'),
        mod=binary(X.modulo, 'mod'), remainder=binary(X.modulo, 'remainder'),
        maximum=binary(_max2, 'maximum'), minimum=binary(_min2, 'minimum'),
        fmax=binary(_max2, 'fmax'), fmin=binary(_min2, 'fmin'),
        floor_divide=binary(lambda a, b: X.floor(a / b), 'floor_divide'),
        copysign=binary(lambda a, b: X.fabs(a) if bool(b >= 0) else -X.fabs(a), 'copysign'),
    )
    linalg = Proxy(np.linalg, dict(
        norm=l_norm, det=l_det, inv=l_inv, solve=l_solve, lstsq=l_lstsq, svd=l_svd,
        eigh=l_eigh, eigvalsh=l_eigvalsh, matrix_rank=l_matrix_rank, LinAlgError=np.linalg.LinAlgError,
        multi_dot=lambda ms: functools.reduce(x_dot, ms), pinv=l_inv))
    T = dict(
        pi=PI, array=x_array, asarray=x_asarray, asanyarray=lambda x, *a, **k: x if isinstance(x, (RowArr,)) or (isinstance(x, np.ndarray) and x.dtype == object) else x_array(x),
        ascontiguousarray=x_asarray,
        zeros=x_zeros, ones=x_ones, empty=x_zeros, full=x_full, zeros_like=_like(ZERO),
        ones_like=_like(ONE), empty_like=_like(ZERO), full_like=_like(None),
        identity=lambda n, *a, **k: x_eye(n), eye=x_eye, linspace=x_linspace, diag=x_diag,
        sum=x_sum, mean=x_mean, average=x_mean, var=x_var, std=x_std, cov=x_cov, dot=x_dot,
        matmul=x_matmul, cross=x_cross, vstack=x_vstack, row_stack=x_vstack,
        column_stack=x_column_stack, concatenate=x_concatenate, append=x_append,
        transpose=x_transpose, swapaxes=x_swapaxes, where=x_where, clip=x_clip,
        allclose=x_allclose, isclose=binary(lambda a, b: _isclose(a, b, lift(1e-5), lift(1e-8)), 'isclose'),
        shape=x_shape, copy=x_copy, isnan=x_isnan, isfinite=x_isfinite, roll=x_roll,
        einsum=x_einsum, diagonal=x_diagonal, linalg=linalg, newaxis=None,
        ndarray=np.ndarray, float64=lambda x=0: lift(x) if not isinstance(x, np.ndarray) else x,
        round=x_round, around=x_round, round_=x_round,
        inner=x_inner, vdot=x_vdot, outer=x_outer, ndim=lambda a: len(x_shape(a)),
    )
    T.update(U)
    T.update(B)
    NP = Proxy(np, T)

    def mfun(name):
        f = T[name]
        return lambda *a: f(*a)
    M = Proxy(_math, dict(pi=PI, **{k: mfun(v) for k, v in dict(
        sin='sin', cos='cos', tan='tan', asin='arcsin', acos='arccos', atan='arctan',
        atan2='arctan2', sqrt='sqrt', radians='radians', degrees='degrees', fabs='abs',
        hypot='hypot', exp='exp', floor='floor', ceil='ceil', sinh='sinh', cosh='cosh',
        asinh='arcsinh', copysign='copysign', fmod='mod').items()}))
    M._table['isnan'] = lambda x: False
    M._table['isfinite'] = lambda x: True
    import scipy.stats as _st
    stats = Proxy(_st, dict(f=_Dist('fppf', _st.f), chi2=_Dist('chi2ppf', _st.chi2),
                            norm=_Dist('normppf', _st.norm)))
    import scipy.linalg as _sl
    slin = Proxy(_sl, dict(norm=l_norm, det=l_det, inv=l_inv, solve=l_solve, svd=l_svd,
                           eigh=l_eigh, eigvalsh=l_eigvalsh, lstsq=l_lstsq, expm=lambda A: Ctx.path.expm(A)))
    return NP, M, stats, slin


NP, MATH, STATS, SLIN = build()


# -- builtins ------------------------------------------------------------------
def b_len(x):
    if hasattr(x, '_symlen'):
        return x._symlen()
    if isinstance(x, RowArr):
        return x.shape[0] if x.pos == 0 else x.trail[0]
    if isinstance(x, SymList):
        return x.arr.n
    return builtins.len(x)


def b_float(x=0.0):
    return x if isinstance(x, E) else (lift(x) if isinstance(x, (int, float)) else builtins.float(x))


def b_int(x=0, *a):
    if isinstance(x, E):
        if x.op == 'num':
            return int(x.args[0])
        # int(n) of an integer-valued symbol is the identity
        if Ctx.path.is_integer(x):
            return x
        unsupported('int() of a symbolic value')
    return builtins.int(x, *a)


def b_abs(x):
    return X.fabs(x) if isinstance(x, E) else builtins.abs(x)


def b_min(*a, **k):
    return _mm(builtins.min, a, k)


def b_max(*a, **k):
    return _mm(builtins.max, a, k)


def _mm(f, a, k):
    return f(*a, **k)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.float, E))


class SInt(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return b_int(x, *a)


class SFloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return b_float(x)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(len=b_len, float=SFloat, int=SInt, abs=b_abs)
