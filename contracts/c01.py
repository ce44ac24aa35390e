"""Best-fit plane: total least squares optimality, orthonormal frame, centroid, upward normal."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca']


def frame(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    before = ctx.snapshot(arr)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    V, n = fit.axes, fit.normal
    ctx.eq('axes are orthonormal', N.dot(V, V.T), N.eye(3))
    ctx.eq('normal is parallel to the third axis', N.cross(n, V[2]), N.zeros(3))
    ctx.eq('normal is a unit vector', N.dot(n, n), 1)
    ctx.le('normal points up', 0, n[2])
    ctx.eq('plane passes through the centroid', fit.center, arr.mean(axis=0))
    ctx.unchanged('coordinates are not modified', arr, before)


def offset_near_data(s, r):
    if r.integers(2):
        arr, w = s.draw('data', gens.planar()), s.draw('w', gens.near_unit())
        return float(arr.mean(axis=0) @ w + r.normal() * 10.0 ** -r.integers(0, 6))
    return float(r.uniform(-30, 30))


def optimal(ctx):
    """no plane {x : w.x = d}, |w| = 1, has a smaller sum of squared distances"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    w = ctx.unit('w', gens.near_unit())
    d = ctx.real('d', offset_near_data)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    c, n, V, s = fit.center, fit.normal, fit.axes, fit.singular_values
    y = arr - c
    best = (N.dot(y, n) ** 2).sum()
    other = ((N.dot(arr, w) - d) ** 2).sum()
    k = N.dot(V, w)
    m, u = arr.shape[0], N.dot(c, w) - d
    scale = 1 + other + best
    ctx.eq('misfit of the fit', best / scale, s[2] ** 2 / scale)
    ctx.eq('misfit of any other plane', other / scale,
           ((s[0] * k[0]) ** 2 + (s[1] * k[1]) ** 2 + (s[2] * k[2]) ** 2 + m * u ** 2) / scale, tol=1e-6)
    ctx.le('singular values sorted', s[1], s[0])
    ctx.le('singular values sorted (2)', s[2], s[1])
    ctx.le('singular values non-negative', 0, s[2])
    ctx.lemma('s3^2 <= s1^2 k1^2 + s2^2 k2^2 + s3^2 k3^2 + m u^2',
              [s[0] ** 2, s[1] ** 2, s[2] ** 2, k[0], k[1], k[2], m, u],
              lambda g: [('le', g[2], g[1]), ('le', g[1], g[0]), ('le', 0, g[2]),
                         ('eq', g[3] ** 2 + g[4] ** 2 + g[5] ** 2, 1), ('le', 0, g[6])],
              lambda g: ('le', g[2] * (g[3] ** 2 + g[4] ** 2 + g[5] ** 2),
                         g[0] * g[3] ** 2 + g[1] * g[4] ** 2 + g[2] * g[5] ** 2 + g[6] * g[7] ** 2))
    if not ctx.symbolic:
        ctx.le('no other plane fits better', best, other, tol=1e-7)


def spread(ctx):
    """axis k carries the k-th largest spread: axis 1 maximises, axis 3 minimises the variance"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    w = ctx.unit('w', gens.near_unit())
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    y = arr - fit.center
    V, s = fit.axes, fit.singular_values
    sp = [(N.dot(y, V[i]) ** 2).sum() for i in range(3)]
    ctx.le('spread along axis 2 <= axis 1', sp[1], sp[0])
    ctx.le('spread along axis 3 <= axis 2', sp[2], sp[1])
    k = N.dot(V, w)
    any_ = (N.dot(y, w) ** 2).sum()
    ctx.eq('spread along any direction', any_,
           (s[0] * k[0]) ** 2 + (s[1] * k[1]) ** 2 + (s[2] * k[2]) ** 2)
    ctx.eq('spread along axis 1', sp[0], s[0] ** 2)
    ctx.lemma('s1^2 k1^2 + s2^2 k2^2 + s3^2 k3^2 <= s1^2',
              [s[0] ** 2, s[1] ** 2, s[2] ** 2, k[0], k[1], k[2]],
              lambda g: [('le', g[2], g[1]), ('le', g[1], g[0]), ('le', 0, g[2]),
                         ('eq', g[3] ** 2 + g[4] ** 2 + g[5] ** 2, 1)],
              lambda g: ('le', g[0] * g[3] ** 2 + g[1] * g[4] ** 2 + g[2] * g[5] ** 2,
                         g[0] * (g[3] ** 2 + g[4] ** 2 + g[5] ** 2)))
    if not ctx.symbolic:
        ctx.le('no direction has more spread than axis 1', any_, sp[0], tol=1e-7)


def too_few(ctx):
    n = ctx.choose('n', [1, 2])
    arr = ctx.mat('m', (n, 3), lambda s, r: r.normal(size=(n, 3)) * 5)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    ctx.raises('fewer than three coordinates are rejected', ValueError, lambda: P(arr))
    if not ctx.symbolic:
        ctx.raises('no coordinates are rejected', ValueError, lambda: P(arr[:0]))


def uniform_weights(ctx):
    """weighting all coordinate axes alike does not change the fit"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(arr)
    b = P(arr, weights=N.ones(3))
    ctx.eq('singular values', b.singular_values, a.singular_values)
    ctx.eq('normal', b.normal, a.normal)
    ctx.eq('axes', b.axes, a.axes)


def equal_weights(ctx):
    """whatever the common weight"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    k = ctx.real('k', gens.uniform(0.2, 5), pos=True)
    w = N.ones(3) * k
    keep, data = ctx.snapshot(w), ctx.snapshot(arr)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(arr)
    s = a.singular_values
    ctx.assume(s[2] > 1e-6 * (0 if ctx.symbolic else s[0]))
    ctx.assume(s[1] > s[2] * (1 if ctx.symbolic else 1.001))
    ctx.assume(s[0] > s[1] * (1 if ctx.symbolic else 1.001))
    size = None if ctx.symbolic else float(s[0]) ** 2
    b = P(arr, weights=w)
    ctx.eq('singular values', b.singular_values, s)
    ctx.eq('center', b.center, a.center)
    for i in range(3):
        ctx.eq('axis %d is the same line' % i, N.outer(b.axes[i], b.axes[i]), N.outer(a.axes[i], a.axes[i]), tol=1e-5)
    ctx.eq('variances', b.eigenvalues, a.eigenvalues)
    ctx.eq('centered points', b.centered_array, a.centered_array)
    ctx.eq('aligned coordinates', b.rotated() ** 2, a.rotated() ** 2, tol=1e-5, scale=size)
    ctx.eq('residuals', b.residuals(), a.residuals(), tol=1e-5, scale=None if ctx.symbolic else float(s[0]))
    ctx.unchanged('weights are not modified', w, keep)
    ctx.unchanged('coordinates are not modified', arr, data)


SCENARIOS = [
    Scenario('frame', frame),
    Scenario('optimal', optimal),
    Scenario('spread', spread),
    Scenario('too few', too_few, concrete=10),
    Scenario('unit weights', uniform_weights),
    Scenario('equal weights', equal_weights),
]
