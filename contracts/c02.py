"""The decomposition of a fit is internally consistent."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca']


def setup(ctx, min_len=3):
    arr = ctx.data('data', gens.planar(), min_len=min_len)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    return ctx.np, arr, fit, arr - arr.mean(axis=0)


def rotated(ctx):
    N, arr, fit, y = setup(ctx)
    V = fit.axes
    r = fit.rotated()
    u = ctx.mag(y, off=[arr])
    for k in range(3):
        ctx.eq('aligned coordinate %d is the component along axis %d' % (k, k), r[:, k], N.dot(y, V[k]), scale=u)
    ctx.eq('aligned coordinates rotate back to the data', N.dot(r, V), y, scale=u)
    ctx.eq('centered coordinates', fit.centered_array, y, scale=u)


def residuals(ctx):
    N, arr, fit, y = setup(ctx)
    n = fit.normal
    h = N.dot(y, n)
    res = fit.residuals()
    u = ctx.mag(y, off=[arr])
    for k in range(3):
        ctx.eq('residual is the offset along the normal (%d)' % k, res[:, k], h * n[k], scale=u)
    ctx.eq('residuals sum to the misfit', (res ** 2).sum(), (h ** 2).sum(), scale=u and u * u * len(y))
    ctx.eq('removing the residuals leaves points on the plane', N.dot(y - res, n), 0 * h, scale=u)
    ctx.eq('repeatable', fit.residuals(), res, scale=u)


def variance(ctx):
    N, arr, fit, y = setup(ctx)
    V = fit.axes
    n = arr.shape[0]
    e = fit.eigenvalues
    u = ctx.mag(y, off=[arr], power=2)
    u = u and u * len(y)
    for k in range(3):
        ctx.eq('eigenvalue %d is the sample variance along axis %d' % (k, k), e[k],
               (N.dot(y, V[k]) ** 2).sum() / (n - 1), scale=u)
    ctx.eq('total variance', e.sum(), (y ** 2).sum() / (n - 1), scale=u)
    ctx.le('sorted', e[1], e[0])
    ctx.le('sorted (2)', e[2], e[1])
    ctx.le('non-negative', 0, e[2])
    q = N.cov(y.T)
    ctx.eq('eigenvectors of the covariance of the data', N.dot(q, V.T), V.T * e, scale=u)


def explained(ctx):
    N, arr, fit, y = setup(ctx)
    tot = (y ** 2).sum()
    ctx.assume(tot > 0)
    mis = (N.dot(y, fit.normal) ** 2).sum()
    x = fit.explained_variance
    u = ctx.mag(y, off=[arr], power=2)
    u = u and u * len(y)
    ctx.eq('explained variance is one minus relative misfit', x * tot, tot - mis, scale=u)
    s = fit.singular_values
    ctx.eq('share of the first two axes', x * (s ** 2).sum(), s[0] ** 2 + s[1] ** 2, scale=u)
    ctx.lemma('explained variance is at least 2/3', [s[0], s[1], s[2], x],
              lambda g: [('le', g[2], g[1]), ('le', g[1], g[0]), ('le', 0, g[2]),
                         ('lt', 0, g[0] ** 2 + g[1] ** 2 + g[2] ** 2),
                         ('eq', g[3] * (g[0] ** 2 + g[1] ** 2 + g[2] ** 2), g[0] ** 2 + g[1] ** 2)],
              lambda g: ('le', 2, 3 * g[3]))
    ctx.lemma('explained variance is at most 1', [s[0], s[1], s[2], x],
              lambda g: [('lt', 0, g[0] ** 2 + g[1] ** 2 + g[2] ** 2),
                         ('eq', g[3] * (g[0] ** 2 + g[1] ** 2 + g[2] ** 2), g[0] ** 2 + g[1] ** 2)],
              lambda g: ('le', g[3], 1))


def svd(ctx):
    N, arr, fit, y = setup(ctx)
    s = fit.singular_values
    ctx.assume(s[2] > 1e-9 * (1 if ctx.symbolic else 1 + s[0]))
    ctx.eq('U S V rebuilds the centered data', N.dot(N.dot(fit.U, fit.sigma), fit.V), y, scale=ctx.mag(y, off=[arr]))
    ctx.eq('singular values are the diagonal of sigma', fit.sigma, N.diag(s), scale=ctx.mag(s))
    ctx.eq('columns of U are orthonormal', N.dot(fit.U.T, fit.U), N.eye(3))


SCENARIOS = [
    Scenario('aligned coordinates', rotated),
    Scenario('residuals', residuals),
    Scenario('variance', variance),
    Scenario('explained variance', explained),
    Scenario('singular value decomposition', svd),
]
