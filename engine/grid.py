"""Symbolic rasters: arrays over all pixels of an elevation model of any size.

A 2-d array is a function of the pixel index; it is only ever looked at in one arbitrary pixel.
Selecting pixels by a condition gives a data array (npx.RowArr) whose rows are the pixels, in row-major
order, for which the condition holds; what is said about its generic row holds for every selected pixel.

Contracts of dependencies, used here in place of their bodies:
 rasterio.features.geometry_mask  True (False without invert) exactly in the pixels of the area
 dataset.read(band, window, masked=True)  a masked array of its own: the pixels of the window, masked where invalid
 numpy.trim_zeros  first and last non-zero member;  arange, meshgrid, flatten, boolean selection, isnan
 affine.Affine  3 x 3 matrices
"""
import types

import numpy as np

from . import expr as X, npx
from .expr import E, SymBool, lift, num, unsupported
from .npx import RowArr, Ctx, Proxy


def boolean(x):
    return x if isinstance(x, SymBool) else X.tobool(bool(x))


def within(i, n):
    return X.and_(X.cmp_('le', X.ZERO, lift(i)), X.cmp_('lt', lift(i), lift(n)))


def implies(a, b):
    return X.or_(X.not_(a), b)


def iff(a, b):
    return X.and_(implies(a, b), implies(b, a))


def same(a, b):
    nz = Ctx.path.nz
    return nz.iszero(nz.norm(lift(a) - lift(b)))


def subst(e, m):
    """replace nodes of an expression (m: id -> expression)"""
    memo = {}

    def go(e):
        if e.id in m:
            return m[e.id]
        if e.id not in memo:
            if e.op in ('num', 'var', 'row', 'pi'):
                r = e
            else:
                a = [go(x) if isinstance(x, E) else x for x in e.args]
                f = dict(add=X.add, mul=X.mul, neg=X.neg, div=X.div, app=X.app).get(e.op)
                if f is None:
                    unsupported('substitution in %s' % e.op)
                r = f(*a)
            memo[e.id] = r
        return memo[e.id]
    return go(e)


def subst_bool(b, m):
    if b.op == 'const':
        return b
    if b.op == 'not':
        return X.not_(subst_bool(b.args[0], m))
    if b.op == 'and':
        return X.and_(subst_bool(b.args[0], m), subst_bool(b.args[1], m))
    return X.cmp_(b.op, subst(b.args[0], m), subst(b.args[1], m))


class Slots(object):
    """pixel index used to compare functions of the pixel"""
    i, j = X.var('grid.i'), X.var('grid.j')


class Raster(object):
    def __init__(self, ctx, data):
        """data(sample) -> dict(sel, valid, nan, z, transform): arrays of bands x rows x columns"""
        self.ctx, self.path, self.data = ctx, ctx.path, data
        p = self.path
        self.H = p.add_var('raster.H', lambda s: float(data(s)['sel'].shape[0]), integer=True, lb=1)
        self.W = p.add_var('raster.W', lambda s: float(data(s)['sel'].shape[1]), integer=True, lb=1)
        self.affine = Affine(*[p.add_var('raster.%s' % k, (lambda s, i=i: float(data(s)['transform'][i])))
                               for i, k in enumerate('abcdef')])
        p.raster_apps = {'sel': self._sel, 'valid': self._band('valid'), 'nan': self._band('nan'), 'z': self._band('z')}
        for k in 'ij':
            p.add_var('grid.' + k, lambda s: 0.0, integer=True)
        self.pixels = []
        self.holds = []          # skolem pixels in which a mask is set
        self.known_trims = {}
        self.segs = {}
        self.reads = []

    def _at(self, a, r, c):
        r, c = np.broadcast_arrays(np.asarray(r, dtype=float), np.asarray(c, dtype=float))
        out = np.zeros(r.shape)
        for k in np.ndindex(*r.shape):
            i, j = int(round(r[k])), int(round(c[k]))
            if 0 <= i < a.shape[0] and 0 <= j < a.shape[1]:
                out[k] = a[i, j]
        return out if out.ndim else float(out)

    def _sel(self, s, r, c):
        return self._at(self.data(s)['sel'], r, c)

    def _band(self, name):
        def f(s, b, r, c):
            return self._at(self.data(s)[name][int(round(float(np.max(b)))) - 1], r, c)
        return f

    def app(self, name, *args):
        return X.app('raster.' + name, *[lift(a) for a in args])

    def flag(self, name, *args):
        return X.cmp_('lt', X.ZERO, self.app(name, *args))

    def integer(self, name, of):
        return self.path.add_var(self.path.fresh('raster.' + name), of, integer=True)

    def pixel(self):
        """an arbitrary pixel of the model"""
        def of(k):
            def f(s):
                sel = self.data(s)['sel']
                n = s.draw('raster.pixel', lambda s, r: int(r.integers(1 << 20)))
                hit = np.argwhere(sel) if n % 3 else np.argwhere(np.ones_like(sel))
                return float(hit[n % len(hit)][k]) if len(hit) else 0.0
            return f
        r, c = self.integer('r', of(0)), self.integer('c', of(1))
        self.path.facts += [within(r, self.H), within(c, self.W)]
        self.pixels.append((r, c))
        return r, c

    def mask(self):
        """the pixels in the area"""
        return BGrid(self, (self.H, self.W), lambda i, j: self.flag('sel', i, j))

    # -- stand-ins ------------------------------------------------------------------
    def dataset(self):
        raster = self

        class Dataset(object):
            shape = (raster.H, raster.W)
            height, width = raster.H, raster.W
            transform = raster.affine
            count = 3
            nodata = None

            def read(self, band=1, window=None, masked=False, **kw):
                if kw or not masked or not isinstance(band, (int, np.integer)):
                    unsupported('read(%s)' % ', '.join(kw))
                if window is None:
                    window = ((0, raster.H), (0, raster.W))
                (r0, r1), (c0, c1) = window
                raster.reads.append((r0, r1, c0, c1))
                ctx = raster.ctx
                ctx.le('window inside the model: top', 0, r0)
                ctx.le('window inside the model: left', 0, c0)
                ctx.le('window inside the model: bottom', r1, raster.H)
                ctx.le('window inside the model: right', c1, raster.W)
                return MGrid(raster, (lift(r1) - lift(r0), lift(c1) - lift(c0)),
                             lambda i, j: raster.app('z', band, i + r0, j + c0),
                             lambda i, j: X.not_(raster.flag('valid', band, i + r0, j + c0)))
        return Dataset()

    def geometry(self):
        raster = self

        class Area(object):
            area = self.path.add_var('raster.area', lambda s: 1.0, pos=True)
            geom_type = 'Polygon'

            @property
            def __geo_interface__(self):
                return raster
        return Area()

    def standins(self):
        raster = self

        def geometry_mask(geometries, out_shape, transform, all_touched=False, invert=False, **kw):
            g = list(geometries)
            if kw or all_touched is not False or len(g) != 1 or g[0] is not raster:
                unsupported('geometry_mask with other arguments')
            if not isinstance(transform, Affine) or any(not same(a, b) for a, b in zip(transform, raster.affine)):
                unsupported('mask for another transform')
            if not (same(out_shape[0], raster.H) and same(out_shape[1], raster.W)):
                unsupported('mask of another shape')
            m = raster.mask()
            return m if invert else ~m
        feat = types.ModuleType('rasterio.features')
        import rasterio.features as rf
        feat.__dict__.update({k: v for k, v in vars(rf).items() if not k.startswith('__')})
        feat.geometry_mask = geometry_mask
        feat.rasterize = lambda *a, **k: unsupported('rasterize')
        aff = types.ModuleType('affine')
        aff.Affine = Affine
        import shapely.geometry as sg
        geo = types.ModuleType('shapely.geometry')
        geo.__dict__.update({k: v for k, v in vars(sg).items() if not k.startswith('__')})
        geo.mapping = lambda g: g.__geo_interface__
        return {'rasterio.features': feat, 'affine': aff, 'shapely.geometry': geo, 'numpy': numpy()}

    # -- selection ---------------------------------------------------------------------
    def segment(self, shape, cond):
        """pixels of a shape for which cond holds, as the rows of a data array: (i, j)"""
        h, w = shape
        c = cond(Slots.i, Slots.j)
        key = (lift(h).id, lift(w).id, c.key())
        if key not in self.segs:
            name = self.path.fresh('px')

            def rows(s):
                n, m = X.evaluate([lift(h), lift(w)], s)
                out = [(i, j) for i in range(int(round(n))) for j in range(int(round(m)))
                       if X.eval_bool(cond(num(i), num(j)), s)]
                return np.array(out, dtype=float).reshape(-1, 2)
            self.path.new_segment(name, 2, rows, 0)
            r = [X.row('%s.%d' % (name, k), name) for k in (0, 1)]
            self.segs[key] = dict(name=name, i=r[0], j=r[1], shape=shape, cond=cond)
        return self.segs[key]

    def info(self, name):
        return [v for v in self.segs.values() if v['name'] == name][0]


class Affine(tuple):
    """3 x 3 affine matrix"""
    def __new__(cls, a, b, c, d, e, f, *rest):
        self = tuple.__new__(cls, [lift(x) for x in (a, b, c, d, e, f)] + [X.ZERO, X.ZERO, X.ONE])
        self._m = list(self)[:6]
        self.a, self.b, self.c, self.d, self.e, self.f = self._m
        self.xoff, self.yoff = self.c, self.f
        self.g, self.h, self.i = X.ZERO, X.ZERO, X.ONE
        return self

    @classmethod
    def identity(cls):
        return cls(1, 0, 0, 0, 1, 0)

    @classmethod
    def translation(cls, x, y):
        return cls(1, 0, x, 0, 1, y)

    @classmethod
    def scale(cls, x, y=None):
        return cls(x, 0, 0, 0, x if y is None else y, 0)

    def __mul__(self, o):
        a, b, c, d, e, f = self._m
        if isinstance(o, Affine):
            g, h, i, j, k, l = o._m
            return Affine(a * g + b * j, a * h + b * k, a * i + b * l + c, d * g + e * j, d * h + e * k, d * i + e * l + f)
        x, y = o
        if isinstance(x, RowArr) or isinstance(y, RowArr):
            return x * a + y * b + c, x * d + y * e + f
        return lift(x) * a + lift(y) * b + c, lift(x) * d + lift(y) * e + f

    __matmul__ = __mul__

    def __invert__(self):
        unsupported('inverse of an affine transform')


class BGrid(object):
    """boolean function of the pixel"""
    _grid = True
    ndim = 2

    def __init__(self, raster, shape, fn):
        self.raster, self.shape, self.fn = raster, shape, fn

    @property
    def size(self):
        return lift(self.shape[0]) * lift(self.shape[1])

    def _new(self, fn):
        return type(self)(self.raster, self.shape, fn)

    def __call__(self, i, j):
        return self.fn(lift(i), lift(j))

    def __invert__(self):
        return self._new(lambda i, j: X.not_(self.fn(i, j)))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)) or (isinstance(o, int) and o in (0, 1)):
            return self._new(self.fn) if o else ~self
        unsupported('comparison of a mask')

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def _two(self, o, f):
        if isinstance(o, SymBool) or isinstance(o, (bool, np.bool_)):
            o = boolean(o)
            return self._new(lambda i, j: f(self.fn(i, j), o))
        if not isinstance(o, BGrid) or type(o) is not type(self) or not all(same(a, b) for a, b in zip(self.shape, o.shape)):
            unsupported('masks of different shapes')
        return self._new(lambda i, j: f(self.fn(i, j), o.fn(i, j)))

    def __and__(self, o):
        return self._two(o, X.and_)

    def __or__(self, o):
        return self._two(o, X.or_)

    __rand__, __ror__ = __and__, __or__

    def copy(self, *a, **k):
        return self._new(self.fn)

    def astype(self, t, *a, **k):
        if t not in (bool, np.bool_, 'bool'):
            unsupported('mask as %r' % (t,))
        return self.copy()

    def flatten(self, order='C'):
        if order != 'C':
            unsupported('order')
        return FlatBool(self.raster, self.shape, self.fn)

    def ravel(self, order='C'):
        return self.flatten(order)

    def sum(self, axis=None, *a, **k):
        if axis not in (0, 1) or a or k:
            unsupported('sum of a mask over %r' % (axis,))
        return Counts(self, axis, X.ZERO, lift(self.shape[1 - axis]))

    def any(self, axis=None, *a, **k):
        c = self.sum(axis, *a, **k)
        c.flag = True
        return c

    max = any

    def nonzero(self):
        sg = self.raster.segment(self.shape, self.fn)
        return tuple(RowArr((sg['name'],), [npx.as_cell(sg[k])]) for k in 'ij')

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        if len(key) != 2 or not all(isinstance(k, slice) and k.step in (None, 1) for k in key):
            unsupported('indexing of a mask')
        ctx = self.raster.ctx
        lo, dims = [], []
        for k, n, nm in zip(key, self.shape, ('rows', 'columns')):
            a = X.ZERO if k.start is None else lift(k.start)
            b = lift(n) if k.stop is None else lift(k.stop)
            # a slice within the array: elsewhere numpy would clip or wrap around
            ctx.le('slice of %s starts inside' % nm, 0, a)
            ctx.le('slice of %s is not reversed' % nm, a, b)
            ctx.le('slice of %s ends inside' % nm, b, n)
            lo.append(a)
            dims.append(b - a)
        g = type(self)(self.raster, tuple(dims), lambda i, j: self.fn(i + lo[0], j + lo[1]))
        return g

    def __setitem__(self, *a):
        unsupported('assignment to a mask')

    def __iter__(self):
        unsupported('iteration over a mask')

    def __bool__(self):
        unsupported('truth value of a mask')

    @property
    def T(self):
        unsupported('transposed mask')


class Counts(object):
    """number of set pixels per column (axis 0) or row (axis 1), members start .. stop - 1"""
    _grid = True
    ndim = 1

    def __init__(self, grid, axis, start, stop, flag=False):
        self.grid, self.axis, self.start, self.stop = grid, axis, start, stop
        self.flag = flag          # truth values rather than counts

    @property
    def shape(self):
        return (self.stop - self.start,)

    @property
    def size(self):
        return self.stop - self.start

    def _symlen(self):
        return self.stop - self.start

    def __getattr__(self, k):
        unsupported('%s of the profile of a mask' % k)

    def nonzero(self):
        return (Hits(self),)

    def argmax(self, *a, **k):
        if not self.flag or a or k:
            unsupported('largest count')
        return Hits(self)[0]

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, -1) and self.flag:
            return Backwards(self)
        unsupported('members of the profile of a mask')

    def __iter__(self):
        unsupported('members of the profile of a mask')

    def trim(self, how):
        g, r = self.grid, self.grid.raster
        path = r.path
        first, last = self.start, self.stop
        # a function of its arguments: the same call gives the same result
        key = (self.axis, how, self.start.id, self.stop.id, lift(g.shape[0]).id, lift(g.shape[1]).id, g.fn(Slots.i, Slots.j).key())
        if key in r.known_trims:
            a, b = r.known_trims[key]
            return Counts(g, self.axis, a, b)

        def profile(s):
            n, m, a, b = [int(round(float(v))) for v in X.evaluate([lift(g.shape[0]), lift(g.shape[1]), self.start, self.stop], s)]
            out = []
            for k in range(a, b):
                hit = [q for q in range(n if self.axis == 0 else m)
                       if X.eval_bool(g.fn(num(q), num(k)) if self.axis == 0 else g.fn(num(k), num(q)), s)]
                out.append((k, hit))
            return out, a, b

        def at(k, q):
            return (q, k) if self.axis == 0 else (k, q)

        def mark(k, hit, end):
            # member k of the profile is not zero: some pixel of it is set
            q = r.integer('q', hit)
            other = g.shape[0] if self.axis == 0 else g.shape[1]
            path.facts.append(implies(end, X.and_(within(q, other), g.fn(*at(k, q)))))
            r.holds.append(at(k, q))

        def firsthit(p, lo):
            hits = [(k, h) for k, h in p if h and k >= lo]
            return hits
        if 'f' in how.lower():
            def of(s):
                p, a, b = profile(s)
                return float(next((k for k, h in p if h), b))
            o = r.integer('o', of)
            path.facts += [X.cmp_('le', self.start, o), X.cmp_('le', o, self.stop)]
            mark(o, lambda s: float(next((h[0] for k, h in profile(s)[0] if h), 0)), X.cmp_('lt', o, self.stop))
            for px in r.pixels:
                k = px[1] if self.axis == 0 else px[0]
                inside = X.and_(X.cmp_('le', self.start, k), X.cmp_('lt', k, self.stop))
                path.facts.append(implies(X.and_(inside, g.fn(*px)), X.cmp_('le', o, k)))
            first = o
        if 'b' in how.lower():
            start = first

            def of(s):
                p, a, b = profile(s)
                f = int(round(float(X.evaluate([start], s)[0])))
                return float(next((k + 1 for k, h in reversed(p) if h and k >= f), f))
            e = r.integer('e', of)
            path.facts += [X.cmp_('le', start, e), X.cmp_('le', e, self.stop)]
            mark(e - 1, lambda s: float(next((h[0] for k, h in reversed(profile(s)[0]) if h), 0)), X.cmp_('lt', start, e))
            for px in r.pixels:
                k = px[1] if self.axis == 0 else px[0]
                inside = X.and_(X.cmp_('le', start, k), X.cmp_('lt', k, self.stop))
                path.facts.append(implies(X.and_(inside, g.fn(*px)), X.cmp_('lt', k, e)))
            last = e
        r.known_trims[key] = (first, last)
        return Counts(g, self.axis, first, last)


class Backwards(object):
    """truth values of a profile in reverse order"""
    _grid = True
    ndim = 1

    def __init__(self, counts):
        self.counts = counts

    def argmax(self, *a, **k):
        if a or k:
            unsupported('argmax with options')
        c = self.counts
        return c.stop - c.start - 1 - Hits(c)[-1]


class Hits(object):
    """indices of the non-zero members of a profile"""
    _grid = True
    ndim = 1

    def __init__(self, counts):
        self.counts = counts
        self.inner = counts.trim('fb')
        # elsewhere there would be no first member
        counts.grid.raster.ctx.lt('some pixel is set', self.inner.start, self.inner.stop)

    def __getitem__(self, k):
        if k == 0:
            return self.inner.start - self.counts.start
        if k == -1:
            return self.inner.stop - 1 - self.counts.start
        if isinstance(k, (list, tuple)):
            return [self[i] for i in k]
        unsupported('members of the set pixels of a profile')

    def min(self, *a, **k):
        return self[0]

    def max(self, *a, **k):
        return self[-1]

    def __iter__(self):
        unsupported('iteration over the set pixels of a profile')


class FlatBool(BGrid):
    """a mask flattened row by row"""
    ndim = 1

    def __getitem__(self, k):
        unsupported('indexing of a flattened mask')

    def _symlen(self):
        return self.size

    def sum(self, *a, **k):
        unsupported('number of pixels')

    def flatten(self, order='C'):
        return self.copy()


class Grid(object):
    """function of the pixel"""
    _grid = True
    ndim = 2

    def __init__(self, raster, shape, fn):
        self.raster, self.shape, self.fn = raster, shape, fn

    def _new(self, fn):
        return type(self)(self.raster, self.shape, fn)

    def copy(self, *a, **k):
        return self._new(self.fn)

    def flatten(self, order='C'):
        if order != 'C':
            unsupported('order')
        return Flat(self.raster, self.shape, self.fn)

    def ravel(self, order='C'):
        return self.flatten(order)

    def _bin(self, o, f):
        if isinstance(o, Grid):
            if type(o) is not type(self) or not all(same(a, b) for a, b in zip(self.shape, o.shape)):
                unsupported('rasters of different shapes')
            return self._new(lambda i, j: f(self.fn(i, j), o.fn(i, j)))
        o = lift(o)
        if o is None:
            unsupported('arithmetic of a raster')
        return self._new(lambda i, j: f(self.fn(i, j), o))

    def __add__(self, o):
        return self._bin(o, X.add)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, X.mul)

    __radd__, __rmul__ = __add__, __mul__

    def __getitem__(self, k):
        if isinstance(k, BGrid):
            return self.flatten()[k.flatten()]
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(q, RowArr) and q.ndim == 1 and not q.rev for q in k) \
                and k[0].segs == k[1].segs and len(k[0].segs) == 1:
            i, j = (q.cells[0][()] for q in k)
            sg = self.raster.info(k[0].segs[0])
            # indices of pixels of this raster, as given by nonzero
            if i is sg['i'] and j is sg['j'] and all(same(a, b) for a, b in zip(self.shape, sg['shape'])):
                return RowArr(k[0].segs, [npx.as_cell(lift(self.fn(i, j)))])
        unsupported('indexing of a raster')


class Flat(Grid):
    ndim = 1

    def flatten(self, order='C'):
        return self.copy()

    def _symlen(self):
        return lift(self.shape[0]) * lift(self.shape[1])

    def __getitem__(self, k):
        if not isinstance(k, FlatBool) or not all(same(a, b) for a, b in zip(self.shape, k.shape)):
            unsupported('selection from a raster')
        sg = self.raster.segment(self.shape, k.fn)
        return RowArr((sg['name'],), [npx.as_cell(lift(self.fn(sg['i'], sg['j'])))])


class MGrid(Grid):
    """masked function of the pixel"""
    def __init__(self, raster, shape, fn, hidden, flat=False):
        Grid.__init__(self, raster, shape, fn)
        self.hidden, self.flat = hidden, flat
        self.ndim = 1 if flat else 2

    def copy(self, *a, **k):
        return MGrid(self.raster, self.shape, self.fn, self.hidden, self.flat)

    _new = None

    def _bin(self, o, f):
        unsupported('arithmetic of a masked raster')

    @property
    def mask(self):
        return (FlatBool if self.flat else BGrid)(self.raster, self.shape, self.hidden)

    @mask.setter
    def mask(self, m):
        self[m] = np.ma.masked

    @property
    def data(self):
        return (Flat if self.flat else Grid)(self.raster, self.shape, self.fn)

    def flatten(self, order='C'):
        if order != 'C':
            unsupported('order')
        return MGrid(self.raster, self.shape, self.fn, self.hidden, True)

    def compressed(self):
        return self.data.flatten()[~self.mask.flatten()]

    def __setitem__(self, k, v):
        if v is not np.ma.masked or not isinstance(k, BGrid) or isinstance(k, FlatBool) != self.flat or \
                not all(same(a, b) for a, b in zip(self.shape, k.shape)):
            unsupported('assignment to a raster')
        old = self.hidden
        self.hidden = lambda i, j: X.or_(old(i, j), k.fn(i, j))

    def __getitem__(self, k):
        if isinstance(k, tuple) and not self.flat:
            # pixels given by index: plain values if none of them is masked
            out = self.data[k]
            sg = self.raster.info(out.segs[0])
            if not _impossible(X.and_(self.hidden(Slots.i, Slots.j), sg['cond'](Slots.i, Slots.j))):
                unsupported('selection of masked pixels')
            return out
        if not isinstance(k, BGrid):
            unsupported('indexing of a masked raster')
        # masked members stay masked: only without them is this a plain array
        h, f = self.hidden, k.fn
        both = X.and_(h(Slots.i, Slots.j), f(Slots.i, Slots.j))
        if not _impossible(both):
            unsupported('selection of masked pixels')
        return self.data.flatten()[k.flatten()]


def _impossible(b):
    from . import smt
    try:
        return smt.prove(Ctx.path.nz, [], X.not_(b), timeout=2000)
    except Exception:
        return False


class Run(object):
    """arange(first, last)"""
    _grid = True
    ndim = 1

    def __init__(self, first, last):
        self.first, self.last = lift(first), lift(last)
        self.shape = (self.last - self.first,)

    def _symlen(self):
        return self.last - self.first

    def __add__(self, o):
        return Run(self.first + o, self.last + o)

    __radd__ = __add__

    def __sub__(self, o):
        return Run(self.first - o, self.last - o)

    def __iter__(self):
        unsupported('iteration over a range of pixels')

    def __getitem__(self, k):
        unsupported('members of a range of pixels')


class RowBool(object):
    """truth values per row of a data array"""
    _rowbool = True

    def __init__(self, segs, cells):
        self.segs, self.cells = segs, cells

    def any(self, axis=None, *a, **k):
        if axis not in (1, -1):
            unsupported('any over %r' % (axis,))
        return self._fold(X.or_)

    def all(self, axis=None, *a, **k):
        if axis not in (1, -1):
            unsupported('all over %r' % (axis,))
        return self._fold(X.and_)

    def _fold(self, f):
        out = []
        for c in self.cells:
            t = c.ravel()[0]
            for b in c.ravel()[1:]:
                t = f(t, b)
            o = np.empty((), dtype=object)
            o[()] = t
            out.append(o)
        return RowBool(self.segs, out)

    def __invert__(self):
        out = []
        for c in self.cells:
            o = np.empty(c.shape, dtype=object)
            for k in np.ndindex(*c.shape):
                o[k] = X.not_(c[k])
            out.append(o)
        return RowBool(self.segs, out)

    def select(self, arr):
        if arr.segs != self.segs or arr.pos != 0 or len(arr.segs) != 1 or arr.rev or self.cells[0].shape:
            unsupported('selection of rows')
        r = Ctx.path.raster
        sg = r.info(arr.segs[0])
        keep = self.cells[0][()]

        def cond(i, j):
            return X.and_(sg['cond'](i, j), subst_bool(keep, {sg['i'].id: i, sg['j'].id: j}))
        new = r.segment(sg['shape'], cond)
        m = {sg['i'].id: new['i'], sg['j'].id: new['j']}
        cell = np.empty(arr.cells[0].shape, dtype=object)
        for k in np.ndindex(*cell.shape):
            cell[k] = subst(arr.cells[0][k], m)
        return RowArr((new['name'],), [cell])


def nan_of(e):
    """a value is NaN if an elevation it depends on is"""
    out = X.FALSE
    for n in X.topo([e]):
        if n.op == 'app' and n.args[0] == 'raster.z':
            out = X.or_(out, X.cmp_('lt', X.ZERO, X.app('raster.nan', *n.args[1:])))
    return out


def isnan(a, *r, **k):
    if isinstance(a, RowArr):
        cells = []
        for c in a.cells:
            o = np.empty(c.shape, dtype=object)
            for i in np.ndindex(*c.shape):
                o[i] = nan_of(c[i])
            cells.append(o)
        return RowBool(a.segs, cells)
    if hasattr(a, '_grid'):
        if isinstance(a, MGrid) or not isinstance(a, Grid):
            unsupported('isnan of a raster')
        return (FlatBool if isinstance(a, Flat) else BGrid)(a.raster, a.shape, lambda i, j: nan_of(a.fn(i, j)))
    return npx.x_isnan(a, *r, **k)


def trim_zeros(x, trim='fb', *a, **k):
    if isinstance(x, Counts):
        return x.trim(trim)
    unsupported('trim_zeros')


def arange(*a, **k):
    if not any(isinstance(x, E) for x in a):
        return npx.NP.arange(*a, **k)
    if k or (len(a) == 3 and a[2] != 1):
        unsupported('arange with a step')
    return Run(*((0,) + tuple(a) if len(a) == 1 else a[:2]))


def meshgrid(x, y, **k):
    if not isinstance(x, Run) or not isinstance(y, Run):
        return npx.NP.meshgrid(x, y, **k)
    R = Ctx.path.raster
    ix = k.pop('indexing', 'xy')
    if k:
        unsupported('meshgrid with options')
    if ix == 'xy':
        s = (y.shape[0], x.shape[0])
        return [Grid(R, s, lambda i, j: x.first + j), Grid(R, s, lambda i, j: y.first + i)]
    s = (x.shape[0], y.shape[0])
    return [Grid(R, s, lambda i, j: x.first + i), Grid(R, s, lambda i, j: y.first + j)]


def numpy():
    def method(name, other):
        def f(a, *r, **k):
            if hasattr(a, '_grid'):
                return getattr(a, name)(*r, **k)
            return other(a, *r, **k)
        return f
    T = dict(npx.NP._table)
    for name in ('sum', 'any', 'all', 'ravel', 'copy', 'nonzero', 'argmax', 'max', 'min'):
        T[name] = method(name, getattr(npx.NP, name))
    T['logical_not'] = T['invert'] = lambda a: ~a
    T['logical_and'] = lambda a, b: a & b
    T['logical_or'] = lambda a, b: a | b
    T['compress'] = lambda c, a, axis=None, **k: a[c] if axis == 0 and not k else unsupported('compress')
    T['flatnonzero'] = lambda a: a.nonzero()[0] if isinstance(a, Counts) else unsupported('flatnonzero')
    old = T.get('where', npx.NP.where)
    T['where'] = lambda c, *a, **k: c.nonzero() if not a and not k and hasattr(c, '_grid') else old(c, *a, **k)
    T['count_nonzero'] = method('sum', lambda *a, **k: unsupported('count_nonzero'))
    T.update(isnan=isnan, trim_zeros=trim_zeros, arange=arange, meshgrid=meshgrid,
             ma=types.SimpleNamespace(masked=np.ma.masked, getmaskarray=lambda z: z.mask, getmask=lambda z: z.mask,
                                      getdata=lambda z: z.data))
    return Proxy(np, T)
