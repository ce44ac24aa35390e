"""Ordinary least squares regression of z on x and y."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.linear']


def gen(name='data', **kw):
    g = gens.planar(name, degenerate=False, **kw)

    def f(s, r):
        import numpy as np
        while True:
            d = g(s, r)
            c = d[:, :2] - d[:, :2].mean(axis=0)
            if np.linalg.cond(c) < 1e3:
                return d
    return gens.scalable(f)


def fit(ctx, arr):
    """precondition: the plan positions are not on one line"""
    N = ctx.np
    R = ctx.mod('attitude.orientation.linear.regression').Regression(arr)
    c = R.C[:, :2]
    g = N.dot(c.T, c)
    ctx.assume(g[0, 0] * g[1, 1] - g[0, 1] ** 2 > 0)
    return R


def normal_equations(ctx):
    N = ctx.np
    arr = ctx.data('data', gen(), min_len=3)
    keep = ctx.snapshot(arr)
    R = fit(ctx, arr)
    sc = None if ctx.symbolic else 1e-7 * (1 + float(N.abs(arr - arr.mean(axis=0)).max()) ** 2 * len(arr))
    k = R.coefficients
    m = arr.mean(axis=0)
    c = arr - m
    e = c[:, 2] - (c[:, 0] * k[0] + c[:, 1] * k[1] + k[2])
    ctx.eq('residuals do not correlate with x', N.dot(c[:, 0], e) / (1 if ctx.symbolic else sc * 1e7), 0)
    ctx.eq('residuals do not correlate with y', N.dot(c[:, 1], e) / (1 if ctx.symbolic else sc * 1e7), 0)
    ctx.eq('residuals have zero mean', e.sum() / (1 if ctx.symbolic else sc * 1e7), 0)
    ctx.eq('residuals', R.residuals, e, tol=1e-6)
    p = R.predictions
    ctx.eq('predictions complete the residuals', p[2] + R.residuals, c[:, 2])
    ctx.eq('predictions are at the data', N.column_stack((p[0], p[1])), c[:, :2])
    ctx.eq('plane through the centroid', k[2] / (1 if ctx.symbolic else float(N.abs(arr).max())), 0)
    ctx.unchanged('coordinates are not modified', arr, keep)
    ctx.eq('repeated query', R.coefficients, k)


def best(ctx):
    """no other plane has a smaller sum of squares"""
    N = ctx.np
    arr = ctx.data('data', gen(), min_len=3)
    R = fit(ctx, arr)
    k = R.coefficients
    q = ctx.vec('q', 3, gens.normal(3, 1.0))
    c = arr - arr.mean(axis=0)
    d = [q[i] - k[i] for i in range(3)]
    e = R.residuals
    f = c[:, 2] - (c[:, 0] * q[0] + c[:, 1] * q[1] + q[2])
    t = c[:, 0] * d[0] + c[:, 1] * d[1] + d[2]
    # sum of squares of any other plane = that of the fit + a sum of squares
    ctx.eq('excess is a sum of squares', (N.dot(f, f) - N.dot(e, e)), N.dot(t, t), tol=1e-6)


def covariance(ctx):
    N = ctx.np
    arr = ctx.data('data', gen(min_n=4), min_len=4)
    R = fit(ctx, arr)
    # queries in any order give the same
    if ctx.choose('first', ['coefficients', 'covariance']) == 'coefficients':
        R.coefficients
    V = R.covariance_matrix
    e = R.residuals
    X = R.C
    G = N.dot(X.T, X)
    # V = e.e (X'X)^-1
    ctx.eq('covariance', N.dot(V, G), N.dot(e, e) * N.identity(3), tol=1e-5,
           scale=None if ctx.symbolic else float(N.dot(e, e) + N.dot(N.abs(V), N.abs(G)).max()))
    ctx.eq('symmetric', V, V.T)
    s = R.standard_errors()
    ctx.eq('standard errors', N.array([i * i for i in s]), N.array([V[i, i] for i in range(3)]))
    for i in range(3):
        ctx.le('standard errors are roots', 0, s[i])
    # answers do not depend on what was asked before
    ctx.eq('repeated query: covariance', R.covariance_matrix, V)
    ctx.eq('repeated query: standard errors', R.standard_errors(), s)
    ctx.eq('repeated query: residuals', R.residuals, e)
    ctx.eq('repeated query: coefficients', R.coefficients, R.coefficients)
    ctx.eq('covariance belongs to these coefficients', e, R.Z - (X[:, 0] * R.coefficients[0] + X[:, 1] * R.coefficients[1] + R.coefficients[2]), tol=1e-6)


def degrees_of_freedom(ctx):
    """observations, coefficients, degrees of freedom"""
    arr = ctx.data('data', gen(), min_len=3)
    R = fit(ctx, arr)
    n = arr.shape[0]
    ctx.eq('observations', R.nobs, n)
    ctx.eq('coefficients', R.ncoef, 3)
    ctx.eq('degrees of freedom of the error', R.df_e, n - 3)
    ctx.eq('degrees of freedom of the regression', R.df_r, 2)


def three_points(ctx):
    N = ctx.np
    pts = ctx.mat('pts', (3, 3), gens.scalable(lambda s, r: r.normal(size=(3, 3)) * 5))
    det = (pts[1, 0] - pts[0, 0]) * (pts[2, 1] - pts[0, 1]) - (pts[1, 1] - pts[0, 1]) * (pts[2, 0] - pts[0, 0])
    ctx.assume(det ** 2 > (0 if ctx.symbolic else 1e-3 * N.abs(pts - pts[0]).max() ** 4))
    R = ctx.mod('attitude.orientation.linear.regression').Regression(pts)
    ctx.eq('exact through three points', R.residuals, N.zeros(3), tol=1e-6)
    ctx.eq('no uncertainty', R.covariance_matrix, N.zeros((3, 3)))


def layouts(ctx):
    """n x 3 and 3 x n coordinates give the same fit"""
    N = ctx.np
    arr = ctx.data('data', gen(min_n=4), min_len=4)
    a = fit(ctx, arr)
    b = ctx.mod('attitude.orientation.linear.regression').Regression(arr.T)
    ctx.eq('coefficients', a.coefficients, b.coefficients)
    ctx.eq('design', a.C, b.C)
    ctx.eq('residuals', a.residuals, b.residuals)
    ctx.eq('covariance', a.covariance_matrix, b.covariance_matrix, tol=1e-6)
    ctx.eq('observations', a.nobs, b.nobs)


def lists(ctx):
    """nested lists work like arrays"""
    N = ctx.np
    arr = ctx.data('data', gen(min_n=4), min_len=4)
    Reg = ctx.mod('attitude.orientation.linear.regression').Regression
    a = Reg(arr)
    for other in (arr.tolist(), [tuple(i) for i in arr], tuple(arr.T), N.asfortranarray(arr), arr.astype('float32').astype(float)):
        b = Reg(other)
        ctx.eq('same fit', a.coefficients, b.coefficients, tol=1e-3)
    # moving the data moves nothing
    t = ctx.vec('t', 3, gens.normal(3, 50.0))
    ctx.eq('translation', Reg(arr + t).coefficients, a.coefficients, tol=1e-6)


SCENARIOS = [
    Scenario('normal equations', normal_equations),
    Scenario('best', best),
    Scenario('covariance', covariance),
    Scenario('degrees of freedom', degrees_of_freedom),
    Scenario('three points', three_points),
    Scenario('layouts', layouts),
    Scenario('input types', lists, deductive=False, concrete=30),
]
