"""Orientation of the regression plane."""
from engine.run import Scenario
from engine import gens
from contracts.c18 import gen
from contracts.c03 import plane_normal

PRELOAD = ['attitude.orientation.linear', 'attitude.orientation.pca']


def opaque_coefficients(ctx):
    """callers of the regression see its coefficients through its contract (C18): here, any three numbers"""
    if not ctx.symbolic:
        return
    R = ctx.mod('attitude.orientation.linear.regression').Regression
    if not isinstance(R.coefficients, property):
        return
    inner = R.coefficients.fget

    def coefficients(self):
        if not hasattr(self, '_opaque'):
            self._opaque = ctx.abstract(inner(self))
        return self._opaque
    R.coefficients = property(coefficients)


def strike_dip(ctx):
    N = ctx.np
    opaque_coefficients(ctx)
    if ctx.choose('points', ['many', 'three']) == 'many':
        arr = ctx.data('data', gen(min_n=4), min_len=4)
    else:
        arr = ctx.mat('pts', (3, 3), lambda s, r: r.normal(size=(3, 3)) * 5)
    L = ctx.mod('attitude.orientation.linear').LinearOrientation
    if not ctx.symbolic:
        c = arr - arr.mean(axis=0)
        g = N.dot(c[:, :2].T, c[:, :2])
        ctx.assume(g[0, 0] * g[1, 1] - g[0, 1] ** 2 > 1e-3 * g[0, 0] * g[1, 1])
    f = L(arr)
    a, b, _ = f.fit.coefficients
    s, d = f.strike_dip()
    n = plane_normal(N, s, d)
    m = N.sqrt(a * a + b * b + 1)
    ctx.eq('strike and dip describe the plane z = ax + by', n * m, N.array([-a, -b, 1]), tol=1e-6)
    ctx.le('dip >= 0', 0, d)
    ctx.le('dip <= 90', d, 90)
    ctx.le('strike', -180, s)
    ctx.le('strike', s, 360)
    dd = f.dip_direction()
    ctx.eq('dip direction is 90 degrees clockwise of strike', N.array([N.sin(N.radians(dd[0])), N.cos(N.radians(dd[0])), dd[1]]),
           N.array([N.cos(N.radians(s)), -N.sin(N.radians(s)), d]))
    az, sl = f.gradient()
    ctx.eq('gradient', N.array([N.degrees(az), N.degrees(sl)]), N.array([s, d]))
    # asking for uncertainties does not change the answer
    u, _ = f.strike_dip(uncertainties=True)
    ctx.eq('strike and dip with uncertainties', N.array([u[0], u[1]]), N.array([s, d]))
    u, _ = f.dip_direction(uncertainties=True)
    ctx.eq('dip direction with uncertainties', N.array([u[0], u[1]]), N.array([dd[0], dd[1]]))
    u = f.strike_dip()
    ctx.eq('repeated query', N.array([u[0], u[1]]), N.array([s, d]))
    ctx.eq('covariance is that of the regression', f.covariance_matrix, f.fit.covariance_matrix)
    ctx.eq('rotated coefficients', N.array([f.coefficients[0], f.coefficients[1]]), N.array([-N.sqrt(a * a + b * b), 0]))


def on_plane(s, r):
    """integer coordinates exactly on the plane k"""
    import numpy as np
    k = s.draw('k', lambda s, r: r.integers(-4, 5, size=3).astype(float))
    while True:
        xy = r.integers(-20, 21, size=(int(r.integers(4, 40)), 2)) + r.integers(-50, 51, size=2)
        if np.linalg.cond(xy - xy.mean(axis=0)) < 50:
            return np.column_stack((xy, xy @ k[:2] + k[2])).astype(float)


def planar(ctx):
    """precondition: all points are on z = k0 x + k1 y + k2, and their plan positions are not on one line"""
    N = ctx.np
    k = ctx.vec('k', 3, lambda s, r: r.integers(-4, 5, size=3).astype(float))
    arr = ctx.data('data', on_plane, min_len=4)
    t = arr[:, 2] - (arr[:, 0] * k[0] + arr[:, 1] * k[1] + k[2])
    m = arr.mean(axis=0)
    c = arr - m
    g = [N.dot(c[:, 0], c[:, 0]), N.dot(c[:, 0], c[:, 1]), N.dot(c[:, 1], c[:, 1])]

    def assume():
        ctx.assume(N.dot(t, t) <= (0 if ctx.symbolic else 1e-12))
        ctx.assume(g[0] > 0)
        ctx.assume(g[0] * g[2] - g[1] ** 2 > 0)
    return k, arr, t, m, c, g, assume


def regression_plane(ctx):
    """points on a plane: regression recovers that plane"""
    N = ctx.np
    k, arr, t, m, c, g, assume = planar(ctx)
    R = ctx.mod('attitude.orientation.linear.regression').Regression(arr)
    assume()
    f = R.coefficients
    d = [f[0] - k[0], f[1] - k[1], f[2] - (k[2] - m[2] + m[0] * k[0] + m[1] * k[1])]
    e = R.residuals
    if ctx.symbolic:
        for i in (0, 1):
            ctx.lemma('regression recovers the plane', g + [arr.shape[0]] + d + [N.dot(e, e), N.dot(t, t)],
                      lambda x: [('lt', 0, x[0]), ('lt', x[1] ** 2, x[0] * x[2]), ('lt', 0, x[3]), ('le', 0, x[7]), ('le', x[8], 0),
                                 ('eq', x[8], x[7] + x[0] * x[4] ** 2 + 2 * x[1] * x[4] * x[5] + x[2] * x[5] ** 2 + x[3] * x[6] ** 2)],
                      lambda x: ('eq', x[4 + i], 0))
    else:
        ctx.eq('regression recovers the plane', f[:2], k[:2], tol=1e-6)


def component_plane(ctx):
    """points on a plane: principal components recover that plane
    (with 'regression plane', 'strike and dip' and C03: the same strike and dip)"""
    N = ctx.np
    k, arr, t, m, c, g, assume = planar(ctx)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    assume()
    sc = 1 if ctx.symbolic else (1 + g[0] + g[2]) * 100
    n = arr.shape[0]
    V, s = fit.axes, fit.singular_values
    p = N.dot(V, N.array([-k[0], -k[1], 1]))
    u = m[2] - (m[0] * k[0] + m[1] * k[1] + k[2])
    q = [V[2, 0] + V[2, 2] * k[0], V[2, 1] + V[2, 2] * k[1]]
    # all points are on the plane, so the spread across it vanishes ...
    ctx.lemma('no spread across the plane',
              [s[0], s[1], s[2], p[0], p[1], p[2], n, u, N.dot(t, t)],
              lambda x: [('le', x[1], x[0]), ('le', x[2], x[1]), ('le', 0, x[2]), ('le', 0, x[6]),
                         ('le', 1, x[3] ** 2 + x[4] ** 2 + x[5] ** 2), ('le', x[8], 0 if ctx.symbolic else 1e-12),
                         ('eq', x[8] / sc, ((x[0] * x[3]) ** 2 + (x[1] * x[4]) ** 2 + (x[2] * x[5]) ** 2 + x[6] * x[7] ** 2) / sc)],
              lambda x: ('le', x[2], 0 if ctx.symbolic else 1e-5 * sc), keep=True)
    # ... and the third axis is perpendicular to the plane
    h = t - u
    w = N.dot(c, V[2]) + h * V[2, 2]
    if ctx.symbolic:
        for i in (0, 1):
            ctx.lemma('third axis is normal to the plane', g + q + [s[2], V[2, 2], N.dot(w, w), N.dot(h, h), N.dot(t, t), n, u],
                      lambda x: [('lt', 0, x[0]), ('lt', x[1] ** 2, x[0] * x[2]), ('eq', x[5], 0), ('le', 0, x[7]), ('le', 0, x[8]), ('le', x[9], 0), ('le', 0, x[10]),
                                 ('eq', x[9], x[8] + x[10] * x[11] ** 2),
                                 ('eq', x[0] * x[3] ** 2 + 2 * x[1] * x[3] * x[4] + x[2] * x[4] ** 2 + x[7], 2 * x[5] ** 2 + 2 * x[6] ** 2 * x[8])],
                      lambda x: ('eq', x[3 + i], 0))
    else:
        ctx.eq('third axis is normal to the plane', N.array(q), N.zeros(2), tol=1e-6)


def planar_data(ctx):
    """for data on a plane, regression and principal components agree"""
    N = ctx.np
    xy = ctx.data('xy', lambda s, r: r.normal(size=(int(r.integers(4, 40)), 2)) * 5 + r.normal(size=2) * 20, ncols=2)
    k = ctx.vec('k', 3, gens.normal(3, 1.0, ints=True))
    ctx.assume(k[0] ** 2 + k[1] ** 2 > 1e-6)
    ctx.assume(N.linalg.cond(xy - xy.mean(axis=0)) < 100)
    arr = N.column_stack((xy, xy @ k[:2] + k[2]))
    s, d = ctx.mod('attitude.orientation.linear').LinearOrientation(arr).strike_dip()
    t, e = ctx.mod('attitude.orientation.pca').PCAOrientation(arr).strike_dip()
    ctx.eq('dip', d, e, tol=1e-6)
    ctx.eq('strike', N.array([N.cos(N.radians(s)), N.sin(N.radians(s))]), N.array([N.cos(N.radians(t)), N.sin(N.radians(t))]), tol=1e-6)
    ctx.eq('dip is that of the plane', N.tan(N.radians(d)), N.hypot(k[0], k[1]), tol=1e-6)


SCENARIOS = [
    Scenario('strike and dip', strike_dip),
    Scenario('regression plane', regression_plane),
    Scenario('component plane', component_plane),
    Scenario('planar data', planar_data, deductive=False, concrete=60),
]
