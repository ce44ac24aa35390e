"""Angular errors: formula, range, order, invariance."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.error.axes']


def formula(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    h = fit.hyperbolic_axes
    if not ctx.symbolic:
        ctx.assume(N.isfinite(h).all() and h.max() > 0 and h[2] > 1e-12 * h[0])
    else:
        ctx.assume(h[2] > 0)
    out = fit.angular_errors()
    rad = fit.angular_errors(degrees=False)
    ctx.true('two errors', len(out) == 2 and len(rad) == 2)
    for k in range(2):
        ctx.le('error >= 0 (%d)' % k, 0, out[k])
        ctx.le('error <= 90 (%d)' % k, out[k], 90)
        ctx.eq('tangent squared is the ratio of the axes (%d)' % k,
               N.sin(rad[k]) ** 2 * (h[k] + h[2]), h[2])
        ctx.eq('degrees (%d)' % k, out[k], N.degrees(rad[k]))
        ctx.eq('error of an axis of given length (%d)' % k,
               N.tan(fit.angular_error(h[0] + k + 1)) * (h[0] + k + 1), h[2])
    e = fit.eigenvalues
    ctx.eq('fit is not modified', e, fit.eigenvalues)


def ordered(ctx):
    """smaller error along the longer axis, when the plane is resolved at the confidence level"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=4)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    n = arr.shape[0]
    e = fit.eigenvalues
    z = ctx.quantile('fppf', 0.95, 2, n - 2)
    c = 2 * z * N.sqrt(e[2] / (n - 2))
    a, b = N.sqrt(e[0]), N.sqrt(e[1])
    ctx.assume(b > c)
    if not ctx.symbolic:
        ctx.assume(b > c * 1.001 and e[2] > 1e-12 * e[0])
    h = fit.hyperbolic_axes
    ctx.le('longer axis', b, a)
    ctx.lemma('in-plane axis 1 is positive', [a, b, c],
              lambda g: [('le', g[1], g[0]), ('lt', g[2], g[1]), ('le', 0, g[2])],
              lambda g: ('le', 0, g[0] * g[0] - g[0] * g[2]))
    ctx.lemma('in-plane axis 2 is positive', [b, c],
              lambda g: [('lt', g[1], g[0]), ('le', 0, g[1])],
              lambda g: ('le', 0, g[0] * g[0] - g[0] * g[1]))
    ctx.eq('in-plane axis 1', h[0], abs(a * a - a * c))
    ctx.eq('in-plane axis 2', h[1], abs(b * b - b * c))
    ctx.lemma('axes keep their order', [a, b, c, h[0], h[1]],
              lambda g: [('le', g[1], g[0]), ('lt', g[2], g[1]), ('le', 0, g[2]),
                         ('eq', g[3], abs(g[0] * g[0] - g[0] * g[2])), ('eq', g[4], abs(g[1] * g[1] - g[1] * g[2]))],
              lambda g: ('le', g[4], g[3]))
    out = fit.angular_errors()
    if not ctx.symbolic:
        ctx.le('minimum <= maximum', out[0], out[1])


def order_of_axes(ctx):
    """the longer hyperbolic axis has the smaller angular error"""
    N = ctx.np
    h = ctx.vec('h', 3, gens.positive(3), pos=True)
    ctx.assume(h[1] <= h[0])
    A = ctx.mod('attitude.error.axes')
    out = A.angular_errors(h)
    ctx.le('minimum <= maximum', out[0], out[1])
    L = ctx.real('L', gens.uniform(0.1, 10), pos=True)
    t = A.axis_angular_error(h, L)
    ctx.eq('angular error of an axis', N.tan(t) * L, h[2])


def invariant(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    kind = ctx.choose('change', ['translate', 'scale'])
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(arr)
    e = a.eigenvalues
    if not ctx.symbolic:
        ctx.assume(e[2] > 1e-9 * e[0] and e[1] > 1e-9 * e[0])
    if kind == 'translate':
        t = ctx.vec('t', 3, gens.normal(3, 10.0))
        b = P(arr + t)
        k = 1
        ctx.eq('center moves along', b.center, a.center + t)
    else:
        k = ctx.real('k', gens.uniform(0.01, 50), pos=True)
        b = P(arr * k)
        ctx.eq('center scales along', b.center, a.center * k)
    ctx.eq('errors are unaffected', N.array(b.angular_errors()), N.array(a.angular_errors()), tol=1e-6)
    ctx.eq('variances scale', b.eigenvalues, a.eigenvalues * k * k)
    if not ctx.symbolic:
        ctx.assume(e[1] > 1.001 * e[2])
        ctx.assume(abs(a.normal[2]) > 1e-6)
    ctx.eq('the plane is the same', N.cross(b.normal, a.normal), N.zeros(3), tol=1e-6)
    ctx.eq('explained variance', b.explained_variance, a.explained_variance)


def poorly_resolved(ctx):
    """known finding: with so few points the confidence interval reaches through the in-plane variances"""
    N = ctx.np
    arr = N.array([[0, 0, 1], [27, 0, 0], [0, 10, 0], [27, 10, 1]], dtype=float)
    lo, hi = ctx.mod('attitude.orientation.pca').PCAOrientation(arr).angular_errors()
    ctx.le('minimum <= maximum (27 x 10 x 1, four points)', lo, hi)


SCENARIOS = [
    Scenario('formula', formula, concrete=100),
    Scenario('ordered', ordered, concrete=100),
    Scenario('order of axes', order_of_axes),
    Scenario('invariance', invariant, concrete=100),
    Scenario('poorly resolved fit', poorly_resolved, deductive=False, concrete=1),
]
