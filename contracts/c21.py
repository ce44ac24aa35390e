"""Coordinates read from elevation models.

Proved for models, masks, areas and transforms of any size (engine/grid.py: a raster is a function of the pixel,
looked at in one arbitrary pixel). Run-time contracts cover what the contracts of the dependencies take for
granted: real areas and files, data types and layouts, all masks up to 3 x 4 pixels."""
import contextlib
import io
import itertools
from engine.run import Scenario

PRELOAD = ['attitude.helpers.dem']
EXPLANATION = ('offset_mask, extract_area and extract_shape proved for an arbitrary pixel of a raster of any size; '
               'clean_coordinates within extract_shape; run-time contracts with in-memory models and GeoTIFFs besides')
ASSUMPTIONS = [
    'contract of rasterio.features.geometry_mask: set exactly in the pixels whose center is in the area',
    'contract of dataset.read(band, window, masked=True): a fresh masked array with the pixels of the window',
    'contracts of numpy.trim_zeros (first and last non-zero member), meshgrid, flatten, boolean selection, isnan; of affine.Affine (3 x 3 matrices)',
    'counts of pixels do not overflow; a mask is boolean',
]


def bounding_box(ctx, shape):
    """the smallest rectangle that holds a mask: every mask of a given shape"""
    N = ctx.np
    F = ctx.mod('attitude.helpers.dem').offset_mask
    h, w = shape
    for bits in itertools.product((False, True), repeat=h * w):
        if not any(bits):
            continue
        m = N.array(bits).reshape(h, w)
        keep = m.copy()
        (y, x), sub = F(m)
        rows, cols = N.nonzero(m)
        ok = (y, x) == (rows.min(), cols.min()) and \
            sub.shape == (rows.max() - rows.min() + 1, cols.max() - cols.min() + 1) and \
            N.array_equal(sub, m[y:y + sub.shape[0], x:x + sub.shape[1]]) and sub.sum() == m.sum()
        if not ok:
            ctx.fail('smallest rectangle with all pixels', 'mask %s: offset %s, %s' % (m.tolist(), (y, x), sub.tolist()))
            return
        ctx.true('mask is not modified', N.array_equal(m, keep))
    ctx.true('smallest rectangle with all pixels', True)


def boxes(ctx):
    bounding_box(ctx, ctx.choose('shape', [(1, 1), (1, 6), (6, 1), (2, 2), (2, 5), (5, 2), (3, 3), (3, 4), (4, 3)]))


SIZES = (1, 2, 7, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 768, 1024, 4096, 32768, 65536, 65537)


def wide(ctx):
    """masks around the sizes at which counters may wrap, of any layout and type"""
    N = ctx.np
    F = ctx.mod('attitude.helpers.dem').offset_mask
    r = rng(ctx)
    big, small = int(r.choice(SIZES)), int(r.integers(1, 12))
    pad = [int(i) for i in r.integers(0, 5, 4)]
    kind = ctx.choose('mask', ['block', 'frame', 'pixels', 'comb'])
    blk = N.zeros((big, small), dtype=bool)
    if kind == 'block':
        blk[:] = True
    elif kind == 'frame':
        blk[0] = blk[-1] = True
        blk[:, 0] = blk[:, -1] = True
    elif kind == 'comb':
        blk[::int(r.choice([2, 4, 256]))] = True
    for _ in range(int(r.integers(1, 5))):
        blk[int(r.integers(big)), int(r.integers(small))] = True
    m = N.pad(blk, ((pad[0], pad[1]), (pad[2], pad[3])))
    if r.integers(2):
        m = m.T
    k = int(r.integers(5))
    if k == 0:
        m = N.asfortranarray(m)
    elif k == 1:
        m = N.repeat(m, 2, axis=1)[:, ::2]
    elif k == 2:
        m = m.astype(N.uint8)
    keep = m.copy()
    (y, x), sub = F(m)
    rows, cols = N.nonzero(m)
    ctx.true('box', (y, x) == (rows.min(), cols.min()) and
             N.array_equal(sub, m[y:rows.max() + 1, x:cols.max() + 1]))
    ctx.true('mask is not modified', N.array_equal(m, keep))


def rng(ctx):
    import numpy as N
    return N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))


def cleaning(ctx):
    """exactly the rows with an invalid value go"""
    N = ctx.np
    r = rng(ctx)
    a = r.normal(size=(int(r.integers(0, 30)), 3)) * 100
    if len(a):
        for _ in range(int(r.integers(0, 12))):
            a[int(r.integers(len(a))), int(r.integers(3))] = N.nan
    if r.integers(4) == 0 and len(a):
        a[0, 0] = N.inf
    keep = a.copy()
    with contextlib.redirect_stdout(io.StringIO()) as f:
        loud = ctx.mod('attitude.helpers.dem').clean_coordinates(a)
    with contextlib.redirect_stdout(io.StringIO()) as g:
        quiet = ctx.mod('attitude.helpers.dem').clean_coordinates(a, silent=True)
    want = N.array([p for p in a if not any(v != v for v in p)]).reshape(-1, 3)
    ctx.true('valid rows, in order', N.array_equal(loud, want) and N.array_equal(quiet, want))
    ctx.true('silent', g.getvalue() == '')
    ctx.true('count is reported', str(len(want)) in f.getvalue() and (len(want) == len(a) or str(len(a) - len(want)) in f.getvalue()))
    ctx.true('coordinates given are kept', N.array_equal(a, keep, equal_nan=True))


class Model(object):
    """elevation model held in memory, read like a rasterio dataset"""

    def __init__(self, bands, mask, transform):
        self.bands, self.mask, self.transform = bands, mask, transform
        self.shape = bands[0].shape
        self.windows = []

    def read(self, band=1, window=None, masked=False, **kw):
        import numpy as N
        a = self.bands[band - 1]
        m = self.mask
        if window is not None:
            (r0, r1), (c0, c1) = window
            self.windows.append((r0, r1, c0, c1))
            a, m = a[r0:r1, c0:c1], m[r0:r1, c0:c1]
        return N.ma.masked_array(a.copy(), m.copy()) if masked else a.copy()


def model(N, r, size=None):
    from affine import Affine
    h, w = size or (int(r.integers(3, 40)), int(r.integers(3, 40)))
    kind = int(r.integers(6))
    sx, sy = float(N.exp(r.normal())), float(N.exp(r.normal()))
    T = Affine.translation(*(r.normal(size=2) * 1000)) * Affine.scale(sx, -sy)
    if kind == 1:
        T = T * Affine.rotation(float(r.uniform(-40, 40)))
    elif kind == 2:
        T = Affine.translation(3, 4) * Affine.scale(sx, sy)
    elif kind == 3:
        T = Affine.identity()
    elif kind == 4:
        T = T * Affine.shear(float(r.uniform(-20, 20)), float(r.uniform(-10, 10)))
    # any unit of length: from degrees and fractions of a millimeter to large pixels
    k = float(r.choice([1, 1, 1, 1e-7, 1e-4, 1e-2, 1e4]))
    T = Affine.translation(T.c * k, T.f * k) * Affine.scale(k) * Affine.translation(-T.c, -T.f) * T
    bands = [r.normal(size=(h, w)) * 100 + 1000 * b for b in range(3)]
    if r.integers(5) == 0:
        bands = [N.round(b / 100) * 100 for b in bands]      # terraces
    dt = int(r.integers(5))
    if dt == 0:
        bands = [N.round(b).astype(N.int16) for b in bands]
    elif dt == 1:
        bands = [b.astype(N.float32) for b in bands]
    elif dt == 2:
        bands = [N.round(b * 3).astype(N.int32) for b in bands]
    else:
        bands = [b * k for b in bands]
    mask = r.random((h, w)) < (0.2 if r.integers(2) else 0)
    if bands[0].dtype.kind == 'f':
        for b in bands:
            for _ in range(int(r.integers(0, 3))):
                b[int(r.integers(h)), int(r.integers(w))] = N.nan
    if r.integers(4) == 0:
        b = bands[0]
        b[int(r.integers(h)), int(r.integers(w))] = 0
    return Model(bands, mask, T)


@contextlib.contextmanager
def opened(N, D, real):
    """the model, as it is or written to a GeoTIFF held in memory and opened with rasterio"""
    if not real:
        yield D
        return
    from rasterio.io import MemoryFile
    nodata = -32000
    with MemoryFile() as f:
        with f.open(driver='GTiff', height=D.shape[0], width=D.shape[1], count=len(D.bands),
                    dtype=D.bands[0].dtype, nodata=nodata, transform=D.transform) as d:
            for i, b in enumerate(D.bands):
                d.write(N.where(D.mask, nodata, b).astype(b.dtype), i + 1)
        with f.open() as d:
            yield d


def polygon(r, N, D):
    from shapely.geometry import Polygon, MultiPolygon, box
    h, w = D.shape
    kind = int(r.integers(5))
    if kind == 0:
        # axis-aligned block of pixels
        i, j = sorted(r.choice(h + 1, 2, replace=False)), sorted(r.choice(w + 1, 2, replace=False))
        px = [(j[0], i[0]), (j[1], i[0]), (j[1], i[1]), (j[0], i[1])]
        return Polygon([D.transform * (float(a), float(b)) for a, b in px])
    k = int(r.integers(3, 9))
    cx, cy = r.uniform(0.2 * w, 0.8 * w), r.uniform(0.2 * h, 0.8 * h)
    t = N.sort(r.uniform(0, 2 * N.pi, k))
    px = [(cx + a * w * 0.45 * N.cos(b), cy + a * h * 0.45 * N.sin(b)) for a, b in zip(r.uniform(0.2, 1.4, k), t)]
    g = Polygon([D.transform * p for p in px])
    if kind == 1 and g.is_valid:
        c = g.representative_point()
        hole = c.buffer(float(N.sqrt(g.area)) * 0.15)
        g = g.difference(hole)
    elif kind == 2 and g.is_valid:
        q = [(r.uniform(0, w), r.uniform(0, h))]
        q = Polygon([D.transform * (q[0][0] + dx, q[0][1] + dy) for dx, dy in ((0, 0), (2.3, 0.2), (1.1, 2.7))])
        g = g.union(q)
    return g


def area(ctx):
    """one coordinate for each valid pixel whose center is in the area"""
    N = ctx.np
    import shapely
    r = rng(ctx)
    size = None
    if r.integers(6) == 0:
        size = (int(r.choice([255, 256, 257, 300])), int(r.integers(3, 8)))
        size = size if r.integers(2) else size[::-1]
    D = model(N, r, size)
    h, w = D.shape
    poly = polygon(r, N, D)
    ctx.assume(poly.is_valid and poly.area > 0)
    j, i = N.meshgrid(N.arange(w) + 0.5, N.arange(h) + 0.5)
    T = D.transform
    X, Y = T.a * j + T.b * i + T.c, T.d * j + T.e * i + T.f
    hit = shapely.contains_xy(poly, X, Y)
    near = shapely.distance(poly.boundary, shapely.points(X, Y)) < 1e-6 * N.sqrt(abs(T.determinant)) + 1e-9 * (abs(X) + abs(Y))
    ctx.assume(bool(hit.any()) and not near.any())
    inside = {(int(a), int(b)): (X[a, b], Y[a, b]) for a, b in zip(*N.nonzero(hit & ~D.mask))}
    ctx.assume(len(inside) >= 1)
    band = int(r.integers(1, 4))
    M = ctx.mod('attitude.helpers.dem')
    before, mask = [b.copy() for b in D.bands], D.mask.copy()
    want = [(x, y, D.bands[band - 1][i, j]) for (i, j), (x, y) in inside.items()]
    real = bool(r.integers(2))
    kw = dict(band=band) if band != 1 or r.integers(2) else {}
    with opened(N, D, real) as src:
        got = M.extract_area(poly, src, **kw)
        kept = M.extract_shape(poly, src, **kw)
    sc = N.abs(N.array(want)[:, :2]).max()

    def order(a):
        a = N.array(a)
        ij = [~D.transform * (p[0], p[1]) for p in a]
        key = sorted(range(len(a)), key=lambda q: (round(ij[q][1] - 0.5), round(ij[q][0] - 0.5)))
        return a[key]
    good = [p for p in want if p[2] == p[2]]
    # a GeoTIFF has NaN pixels marked invalid already
    for what, out, exp in (('area', got, good if real and len(got) == len(good) else want), ('shape', kept, good)):
        ctx.true(what + ': one coordinate for each pixel', N.shape(out) == (len(exp), 3))
        if N.shape(out) == (len(exp), 3) and exp:
            g, e = order(out), order(exp)
            ctx.eq(what + ': positions of the pixel centers', g[:, :2] / sc, e[:, :2] / sc, tol=1e-11)
            ctx.true(what + ': elevations', N.array_equal(g[:, 2], e[:, 2].astype(float), equal_nan=True))
    rows, cols = N.nonzero(hit)
    box = (rows.min(), rows.max() + 1, cols.min(), cols.max() + 1)
    ctx.true('reads the bounding box of the area, no more', all(tuple(b) == box for b in D.windows))
    ctx.true('model is not modified', N.array_equal(mask, D.mask) and
             all(N.array_equal(a, b, equal_nan=True) for a, b in zip(before, D.bands)))


class Computed(object):
    """large elevation model whose pixels are computed when they are read"""

    def __init__(self, shape, transform):
        self.shape, self.transform = shape, transform

    @staticmethod
    def z(i, j):
        return i * 0.5 + j * 0.25

    def read(self, band=1, window=None, masked=False, **kw):
        import numpy as N
        (r0, r1), (c0, c1) = window or ((0, self.shape[0]), (0, self.shape[1]))
        r0, r1, c0, c1 = (int(k) for k in (r0, r1, c0, c1))
        i, j = N.meshgrid(N.arange(r0, r1), N.arange(c0, c1), indexing='ij')
        return N.ma.masked_array(self.z(i, j), N.zeros(i.shape, dtype=bool)) if masked else self.z(i, j)


def large(ctx):
    """areas far from the first pixel of large models"""
    N = ctx.np
    from affine import Affine
    from shapely.geometry import box
    r = rng(ctx)
    n = int(r.choice([300, 33000, 66000, 70000]))
    h, w = (int(r.integers(4, 9)), n) if r.integers(2) else (n, int(r.integers(4, 9)))
    k = float(r.choice([1.0, 0.25, 0.001, 30.0]))
    # projected coordinates may be far from the origin
    T = Affine.translation(float(r.choice([0.0, 5e5])), float(r.choice([0.0, 4e6]))) * Affine.scale(k, -k)
    D = Computed((h, w), T)
    # a block of pixels, often across one of the sizes at which counters may wrap
    def side(m):
        c = [e for e in (0, 128, 256, 32768, 65536, m) if e <= m]
        a = int(min(max(int(r.choice(c)) + int(r.integers(-3, 2)), 0), m - 1))
        return a, int(min(a + int(r.integers(1, 6)), m))
    (i0, i1), (j0, j1) = side(h), side(w)
    (xa, ya), (xb, yb) = T * (j0, i0), T * (j1, i1)
    out = ctx.mod('attitude.helpers.dem').extract_shape(box(min(xa, xb), min(ya, yb), max(xa, xb), max(ya, yb)), D)
    want = N.array([T * (j + 0.5, i + 0.5) + (D.z(i, j),) for i in range(i0, i1) for j in range(j0, j1)])
    ctx.true('one coordinate for each pixel', out.shape == want.shape)
    if out.shape == want.shape:
        out = out[N.lexsort((N.round(out[:, 0] / k * 4), -N.round(out[:, 1] / k * 4)))]
        ctx.le('positions of the pixel centers', abs(out[:, :2] - want[:, :2]).max() / k, 1e-3)
        ctx.true('elevations', N.array_equal(out[:, 2], want[:, 2]))


def planar(ctx):
    """a plane in the model is recovered by the fit"""
    N = ctx.np
    from shapely.geometry import Polygon
    r = rng(ctx)
    D = model(N, r)
    h, w = D.shape
    ctx.assume(h > 8 and w > 8)
    c = r.normal(size=2)
    j, i = N.meshgrid(N.arange(w) + 0.5, N.arange(h) + 0.5)
    T = D.transform
    x, y = T.a * j + T.b * i + T.c, T.d * j + T.e * i + T.f
    D.bands[0] = x * c[0] + y * c[1] + 7
    D.mask[:] = False
    poly = Polygon([T * p for p in ((1, 1), (w - 1, 1.5), (w - 1.5, h - 1), (1.5, h - 1.5))])
    pts = ctx.mod('attitude.helpers.dem').extract_shape(poly, D)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(pts)
    n = N.array([-c[0], -c[1], 1])
    ctx.eq('normal of the plane', f.normal, n / N.linalg.norm(n), tol=1e-5)


# -- all models ---------------------------------------------------------------------------------
def raster(s, r):
    """a small elevation model: three bands, valid pixels, NaN values, the pixels of an area, transform"""
    import numpy as np
    h, w = int(r.integers(1, 6)), int(r.integers(1, 6))
    sel = r.random((h, w)) < r.choice([0.15, 0.5, 0.9])
    sel[int(r.integers(h)), int(r.integers(w))] = True
    nan = r.random((3, h, w)) < (0.2 if r.integers(2) else 0)
    return dict(sel=sel, valid=np.broadcast_to(r.random((h, w)) < r.choice([0.8, 1.0]), (3, h, w)), nan=nan,
                z=np.round(r.normal(size=(3, h, w)) * 50), transform=[2.0, 0.25, float(r.integers(-50, 50)), -0.5, -1.5, float(r.integers(-50, 50))])


def pixel_area(d):
    """an area that holds exactly the centers of the selected pixels"""
    import shapely
    from affine import Affine
    import numpy as np
    T = Affine(*d['transform'])
    return shapely.union_all([shapely.Polygon([T * (j + x, i + y) for x, y in ((.1, .1), (.9, .1), (.9, .9), (.1, .9))])
                              for i, j in np.argwhere(d['sel'])])


def symbolic_raster(ctx):
    from engine import grid, load
    d = lambda s: s.draw('raster', raster)
    R = ctx.path.raster = grid.Raster(ctx, d)
    return R, load.SymWorld(R.standins()).load('attitude.helpers.dem'), grid


def every_mask(ctx):
    """the rectangle for a mask of any size holds its pixels, and is the smallest to do so"""
    if not ctx.symbolic:
        N = ctx.np
        m = ctx.sample.draw('raster', raster)['sel']
        keep = m.copy()
        (y, x), sub = ctx.mod('attitude.helpers.dem').offset_mask(m)
        rows, cols = N.nonzero(m)
        ctx.eq('box', N.array([y, x, *sub.shape]), N.array([rows.min(), cols.min(), rows.max() - rows.min() + 1, cols.max() - cols.min() + 1]))
        ctx.true('content', N.array_equal(sub, m[y:rows.max() + 1, x:cols.max() + 1]))
        return ctx.true('mask is not modified', N.array_equal(m, keep))
    import engine.expr as X
    R, M, grid = symbolic_raster(ctx)
    r, c = R.pixel()
    m = R.mask()
    ctx.assume(m(r, c))               # an arbitrary pixel of the mask
    (y, x), sub = M.offset_mask(m)
    h, w = sub.shape
    ctx.true('holds every pixel of the mask', X.and_(grid.within(r - y, h), grid.within(c - x, w)))
    i, j = X.var('grid.i'), X.var('grid.j')
    ctx.true('holds the mask itself', grid.iff(sub(i, j), m(i + y, j + x)))
    for what, line in (('first row', lambda a, b: X.cmp_('eq', a, X.lift(y))), ('last row', lambda a, b: X.cmp_('eq', a, y + h - 1)),
                       ('first column', lambda a, b: X.cmp_('eq', b, X.lift(x))), ('last column', lambda a, b: X.cmp_('eq', b, x + w - 1))):
        some = X.FALSE
        for a, b in R.holds:
            a, b = X.lift(a), X.lift(b)
            some = X.or_(some, X.and_(X.and_(line(a, b), m(a, b)), X.and_(grid.within(a, R.H), grid.within(b, R.W))))
        ctx.true('smallest: the %s is needed' % what, some)


def every_area(ctx):
    """each selected pixel of a model of any size, with its elevation, at its center, and nothing else"""
    what = ctx.choose('function', ['extract_area', 'extract_shape'])
    band = ctx.choose('band', [None, 1, 2, 3])
    kw = {} if band is None else dict(band=band)
    b = band or 1
    if not ctx.symbolic:
        N = ctx.np
        from affine import Affine
        d = ctx.sample.draw('raster', raster)
        D = Model([N.where(n, N.nan, z) for n, z in zip(d['nan'], d['z'])], ~d['valid'][0], Affine(*d['transform']))
        before, mask = [a.copy() for a in D.bands], D.mask.copy()
        hit = d['sel'] & ~D.mask
        if what == 'extract_shape':
            hit = hit & ~d['nan'][b - 1]
        got = getattr(ctx.mod('attitude.helpers.dem'), what)(pixel_area(d), D, **kw)
        ij = N.argwhere(hit)
        ctx.shape('one coordinate per pixel', got, (len(ij), 3))
        T = d['transform']
        if len(ij):
            u, v = ij[:, 1] + .5, ij[:, 0] + .5
            ctx.eq('easting', got[:, 0], T[0] * u + T[1] * v + T[2])
            ctx.eq('northing', got[:, 1], T[3] * u + T[4] * v + T[5])
            ctx.true('elevation', N.array_equal(got[:, 2], D.bands[b - 1][ij[:, 0], ij[:, 1]], equal_nan=True))
        ctx.true('model is not modified', N.array_equal(mask, D.mask) and
                 all(N.array_equal(p, q, equal_nan=True) for p, q in zip(before, D.bands)))
        return
    import engine.expr as X
    R, M, grid = symbolic_raster(ctx)
    q = R.pixel()
    ctx.assume(R.flag('sel', *q))     # precondition: the area holds the center of some pixel
    r, c = R.pixel()
    out = getattr(M, what)(R.geometry(), R.dataset(), **kw)
    if not isinstance(out, grid.RowArr) or out.pos != 0 or out.trail != (3,) or len(out.segs) != 1:
        grid.unsupported('coordinates in another form')
    sg = R.info(out.segs[0])
    x, y, z = out.cells[0]
    # the elevation is that of one pixel of the band ...
    if z.op != 'app' or z.args[0] != 'raster.z':
        grid.unsupported('elevations in another form')
    ctx.eq('elevation of the band asked for', z.args[1], b)
    row, col = z.args[2], z.args[3]
    T = R.affine
    new = lambda e: grid.RowArr(out.segs, [grid.npx.as_cell(e)])
    # ... and the position is that of its center
    ctx.eq('easting', out[:, 0], new(T.a * (col + X.num(1) / 2) + T.b * (row + X.num(1) / 2) + T.c))
    ctx.eq('northing', out[:, 1], new(T.d * (col + X.num(1) / 2) + T.e * (row + X.num(1) / 2) + T.f))

    def wanted(r, c):
        w = X.and_(R.flag('sel', r, c), R.flag('valid', b, r, c))
        return X.and_(w, X.not_(R.flag('nan', b, r, c))) if what == 'extract_shape' else w

    def at(e, i, j):
        return grid.subst(e, {sg['i'].id: i, sg['j'].id: j})
    h, w = sg['shape']
    # any row of the result: a pixel of the model that is wanted
    i, j = (R.integer(n, lambda s: 0.0) for n in 'ij')
    there = X.and_(X.and_(grid.within(i, h), grid.within(j, w)), sg['cond'](i, j))
    g = at(row, i, j), at(col, i, j)
    ctx.true('pixels of the model only', grid.implies(there, X.and_(grid.within(g[0], R.H), grid.within(g[1], R.W))))
    ctx.true('only valid pixels in the area', grid.implies(there, wanted(*g)))
    # any wanted pixel of the model: in the result, once (rows of the result have different i, j)
    i, j = r - at(row, X.ZERO, X.ZERO), c - at(col, X.ZERO, X.ZERO)
    ctx.eq('rows are the rows of the model', at(row, i, j), r)
    ctx.eq('columns are the columns of the model', at(col, i, j), c)
    there = X.and_(X.and_(grid.within(i, h), grid.within(j, w)), sg['cond'](i, j))
    ctx.true('every valid pixel in the area', grid.implies(wanted(r, c), there))


SCENARIOS = [
    Scenario('every mask', every_mask),
    Scenario('every area', every_area),
    Scenario('bounding boxes', boxes, deductive=False, concrete=12),
    Scenario('large masks', wide, deductive=False, concrete=300),
    Scenario('cleaning', cleaning, deductive=False, concrete=80),
    Scenario('areas', area, deductive=False, concrete=300),
    Scenario('large models', large, deductive=False, concrete=40),
    Scenario('planes', planar, deductive=False, concrete=20),
]
