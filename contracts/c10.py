"""Slices and projections of conics are exact restrictions to a plane."""
from engine.run import Scenario
from engine import gens
from .c09 import conic, value, aug

PRELOAD = ['attitude.geom.conics']


def plane_gen(k):
    def gen(s, r):
        n = r.normal(size=k)
        j = int(r.integers(6))
        if j == 0:
            import numpy
            n = numpy.eye(k)[int(r.integers(k))] * r.choice([-1, 1]) * r.uniform(0.5, 3)
        elif j == 1:
            n = n * 0
            n[-1] = 1.0
            n[0] = 10.0 ** -r.integers(1, 9)
        return n
    return gens.scalable(gen)


def size(ctx, n, x):
    """magnitude of the terms of a product, for rounding"""
    return None if ctx.symbolic else 1 + float(abs(n).max() * abs(x).max())


def slice3(ctx):
    """default axes: quadric cut by an arbitrary plane"""
    N = ctx.np
    U = ctx.mod('attitude.geom.util')
    C, m = conic(ctx, 4)
    n = ctx.vec('n', 3, plane_gen(3))
    ctx.assume(N.dot(n, n) > 0)
    d = ctx.real('d', gens.uniform(-5, 5, special=(0.0,)))
    con, T, off = C.slice(U.plane(n, d))
    check(ctx, N, m, n, d, con, T, off, 3, True)


def slice2(ctx):
    N = ctx.np
    U = ctx.mod('attitude.geom.util')
    C, m = conic(ctx, 3)
    n = ctx.vec('n', 2, plane_gen(2))
    ctx.assume(N.dot(n, n) > 0)
    d = ctx.real('d', gens.uniform(-5, 5, special=(0.0,)))
    con, T, off = C.slice(U.plane(n, d))
    check(ctx, N, m, n, d, con, T, off, 2, True)


def check(ctx, N, m, n, d, con, T, off, k, default):
    off = N.array(off)
    ctx.shape('slice has one dimension less', con, (k, k))
    w = ctx.vec('w', k - 1, gens.normal(k - 1, 2.0))
    v = aug(N, w)
    x = N.dot(v, N.array(T))
    ctx.eq('back-transformed point is a homogeneous position', x[-1], 1)
    ctx.eq('slice coordinates map into the plane', N.dot(n, x[:-1]) + d, 0, tol=1e-6, scale=size(ctx, n, x))
    ctx.eq('slice is the restriction of the quadric', N.dot(N.dot(v, N.array(con)), v), value(N, m, x[:-1]), tol=1e-6)
    ctx.eq('offset is the foot of the perpendicular from the origin', off * N.dot(n, n), -n * d)
    if default:
        # isometric coordinates: distances in the slice are distances in space
        ctx.eq('slice coordinates preserve distances', N.dot(x[:-1] - off, x[:-1] - off), N.dot(w, w), tol=1e-6)
        ctx.eq('the origin of the slice is the offset', N.dot(aug(N, w * 0), N.array(T))[:-1], off)


def slice_axes(ctx):
    """caller-supplied axes"""
    N = ctx.np
    U = ctx.mod('attitude.geom.util')
    C, m = conic(ctx, 4)
    a = ctx.mat('axes', (2, 3), gens.scalable(lambda s, r: r.normal(size=(2, 3))))
    n = N.cross(a[0], a[1])
    ctx.assume(N.dot(n, n) > (0 if ctx.symbolic else 1e-4 * N.abs(a).max() ** 4))
    d = ctx.real('d', gens.uniform(-5, 5, special=(0.0,)))
    con, T, off = C.slice(U.plane(n, d), axes=a)
    off = N.array(off)
    w = ctx.vec('w', 2, gens.normal(2, 2.0))
    v = aug(N, w)
    x = off + w[0] * a[0] + w[1] * a[1]
    ctx.eq('slice is the restriction of the quadric', N.dot(N.dot(v, N.array(con)), v), value(N, m, x), tol=1e-5)
    ctx.eq('transform maps back', N.dot(v, N.array(T))[:-1], x, tol=1e-6)
    ctx.eq('points of the slice lie in the plane', N.dot(n, x) + d, 0, tol=1e-6, scale=size(ctx, n, x))
    ctx.eq('origin is the foot of the perpendicular', off * N.dot(n, n), -n * d)


def projection(ctx):
    """contour seen from a viewpoint: points of the projection are points of tangency"""
    N = ctx.np
    k = ctx.choose('dim', [3, 2])
    C, m = conic(ctx, k + 1)
    where = ctx.choose('viewpoint', ['origin', 'given'])
    if where == 'origin':
        p = N.zeros(k)
    else:
        p = ctx.vec('p', k, gens.normal(k, 2.0))
    pl = N.dot(m, aug(N, p))
    # the viewpoint is not the center of the quadric
    ctx.assume(N.dot(pl[:-1], pl[:-1]) > (0 if ctx.symbolic else 1e-4 * abs(m).max() ** 2))
    con, T, off = C.projection() if where == 'origin' else C.projection(viewpoint=p)
    w = ctx.vec('w', k - 1, gens.normal(k - 1, 2.0))
    v = aug(N, w)
    x = N.dot(v, N.array(T))[:-1]
    ctx.eq('contour lies on the polar plane of the viewpoint', N.dot(pl, aug(N, x)), 0, tol=1e-5, scale=size(ctx, pl, aug(N, x)))
    ctx.eq('contour is cut from the quadric', N.dot(N.dot(v, N.array(con)), v), value(N, m, x), tol=1e-5)


def projection_axes(ctx):
    """... on axes given by the caller"""
    N = ctx.np
    C, m = conic(ctx, 4)
    given = ctx.choose('viewpoint', [False, True])
    p = ctx.vec('p', 3, gens.normal(3, 2.0)) if given else N.zeros(3)
    pl = N.dot(m, aug(N, p))
    n = pl[:-1]
    ctx.assume(N.dot(n, n) > (0 if ctx.symbolic else 1e-4 * abs(m).max() ** 2))
    # any two directions; if they are in the polar plane, so is the contour
    a, b = [ctx.vec(i, 3, gens.normal(3, 1.0)) for i in ('a', 'b')]
    kw = dict(viewpoint=p) if given else {}
    con, T, off = C.projection(axes=(a, b), **kw)
    w = ctx.vec('w', 2, gens.normal(2, 2.0))
    v = aug(N, w)
    x = N.array(off) + w[0] * a + w[1] * b
    ctx.eq('transform maps back', N.dot(v, N.array(T))[:-1], x, tol=1e-6)
    ctx.eq('contour lies on the polar plane of the viewpoint', N.dot(pl, aug(N, x)), w[0] * N.dot(n, a) + w[1] * N.dot(n, b),
           tol=1e-5, scale=size(ctx, pl, aug(N, x)))
    ctx.eq('contour is cut from the quadric', N.dot(N.dot(v, N.array(con)), v), value(N, m, x), tol=1e-5,
           scale=None if ctx.symbolic else float(abs(m).max() * (1 + abs(x).max()) ** 2))


def slice_axis2(ctx):
    """caller-supplied axis in the plane"""
    N = ctx.np
    U = ctx.mod('attitude.geom.util')
    C, m = conic(ctx, 3)
    a = ctx.vec('axis', 2, gens.normal(2, 1.0))
    ctx.assume(N.dot(a, a) > (0 if ctx.symbolic else 1e-4))
    n = N.array([-a[1], a[0]])
    d = ctx.real('d', gens.uniform(-5, 5, special=(0.0,)))
    con, T, off = C.slice(U.plane(n, d), axes=(a,))
    off = N.array(off)
    w = ctx.vec('w', 1, gens.normal(1, 2.0))
    v = aug(N, w)
    x = off + w[0] * a
    ctx.eq('slice is the restriction of the conic', N.dot(N.dot(v, N.array(con)), v), value(N, m, x), tol=1e-5)
    ctx.eq('transform maps back', N.dot(v, N.array(T))[:-1], x, tol=1e-6)


def perpendicular(ctx):
    N = ctx.np
    k = ctx.choose('dim', [2, 3])
    n = ctx.vec('n', k, plane_gen(k))
    ctx.assume(N.dot(n, n) > 0)
    v = ctx.mod('attitude.geom.util').perpendicular_vector(n)
    ctx.eq('perpendicular', N.dot(n, v), 0)
    ctx.lt('not zero', 0, N.dot(v, v))


SCENARIOS = [
    Scenario('slice of a quadric', slice3),
    Scenario('slice of a conic', slice2),
    Scenario('slice on given axes', slice_axes),
    Scenario('slice on a given axis', slice_axis2),
    Scenario('projection', projection),
    Scenario('projection on given axes', projection_axes),
    Scenario('perpendicular vector', perpendicular),
]
