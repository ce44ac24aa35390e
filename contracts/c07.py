"""Error axes follow the published statistics."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.error.axes', 'attitude.orientation.grouped',
           'attitude.orientation.reconstructed']
CL = gens.uniform(0.02, 0.998, special=(0.5, 0.68, 0.95, 0.99))


def setup(ctx, min_len=3):
    arr = ctx.data('data', gens.planar(), min_len=min_len)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    return ctx.np, arr.shape[0], fit, fit.eigenvalues, ctx.mod('attitude.error.axes')


def expected(N, e, cov, z, all_axes=True, n=None):
    err = z * N.sqrt(cov)
    last = e[2] if all_axes else e[2] / (n - 1)
    return N.array([abs(e[0] - err[0]), abs(e[1] - err[1]), last + err[2]])


def noise(ctx):
    N, n, fit, e, A = setup(ctx)
    cov = 4 * e * e[2] / (n - 2)
    ctx.eq('noise covariance', A.noise_covariance(fit), cov)
    k = ctx.choose('noise dof', [2, 1])
    ctx.eq('noise covariance for given degrees of freedom', A.noise_covariance(fit, dof=k), 4 * e * e[2] / (n - k))
    cl = ctx.real('cl', CL)
    z = ctx.quantile('fppf', cl, 2, n - 2)
    ctx.eq('noise axes at a confidence level', A.noise_axes(fit, confidence_level=cl), expected(N, e, cov, z))
    z = ctx.quantile('fppf', 0.95, 2, n - 2)
    ctx.eq('default level is 95 percent', A.noise_axes(fit), expected(N, e, cov, z))
    ctx.eq('fit reports the noise axes', fit.hyperbolic_axes, expected(N, e, cov, z))
    ctx.eq('statistical axes default to noise', A.statistical_axes(fit), expected(N, e, cov, z))
    ctx.eq('named method', A.hyperbolic_axes(fit, type='noise'), expected(N, e, cov, z))
    ctx.eq('eigenvalues are not modified', fit.eigenvalues, e)


def sampling(ctx):
    N, n, fit, e, A = setup(ctx)
    cov = 2 * e ** 2 / (n - 1)
    ctx.eq('sampling covariance', A.sampling_covariance(fit), cov)
    cl = ctx.real('cl', CL)
    z = ctx.quantile('fppf', cl, 2, n - 2)
    ctx.eq('sampling axes at a confidence level', A.sampling_axes(fit, confidence_level=cl), expected(N, e, cov, z))
    z = ctx.quantile('fppf', 0.95, 2, n - 2)
    ctx.eq('default level is 95 percent', A.sampling_axes(fit), expected(N, e, cov, z))
    ctx.eq('selected by name', A.statistical_axes(fit, method='sampling'), expected(N, e, cov, z))
    ctx.eq('named method', A.hyperbolic_axes(fit, type='sampling'), expected(N, e, cov, z))


def options(ctx):
    N, n, fit, e, A = setup(ctx)
    method = ctx.choose('method', ['noise', 'sampling'])
    cov = 4 * e * e[2] / (n - 2) if method == 'noise' else 2 * e ** 2 / (n - 1)
    cl = ctx.real('cl', CL)
    z = ctx.quantile('fppf', cl, 2, n - 2)
    ctx.eq('fixed normal variance',
           A.statistical_axes(fit, method=method, confidence_level=cl, variance_on_all_axes=False),
           expected(N, e, cov, z, False, n))
    ctx.eq('chi-squared option', A.statistical_axes(fit, method=method, confidence_level=cl, chisq=True),
           expected(N, e, cov, ctx.quantile('chi2ppf', cl, 2)))
    z = ctx.quantile('fppf', cl, 3, n - 3)
    ctx.assume(n > 3)
    ctx.eq('degrees of freedom (chi-squared)',
           A.statistical_axes(fit, method=method, confidence_level=cl, dof=3, chisq=True),
           expected(N, e, cov, ctx.quantile('chi2ppf', cl, 3)))
    ctx.eq('options by name of the method', A.hyperbolic_axes(fit, type=method, confidence_level=cl, dof=3,
                                                              variance_on_all_axes=False),
           expected(N, e, cov, z, False, n))
    wrap = A.noise_axes if method == 'noise' else A.sampling_axes
    ctx.eq('options are passed on', wrap(fit, confidence_level=cl, chisq=True, variance_on_all_axes=False),
           expected(N, e, cov, ctx.quantile('chi2ppf', cl, 2), False, n))
    ctx.eq('degrees of freedom', A.statistical_axes(fit, method=method, confidence_level=cl, dof=3),
           expected(N, e, cov, z))


def monotone(ctx):
    N, n, fit, e, A = setup(ctx)
    method = ctx.choose('method', ['noise', 'sampling'])
    a = ctx.real('cl1', CL)
    b = ctx.real('cl2', CL)
    ctx.assume(a <= b)
    if not ctx.symbolic:
        ctx.assume(e[2] > 1e-12 * e[0])
    p = A.statistical_axes(fit, method=method, confidence_level=a)
    q = A.statistical_axes(fit, method=method, confidence_level=b)
    cov = 4 * e * e[2] / (n - 2) if method == 'noise' else 2 * e ** 2 / (n - 1)
    za, zb = ctx.quantile('fppf', a, 2, n - 2), ctx.quantile('fppf', b, 2, n - 2)
    ctx.le('statistic grows with confidence', za, zb)
    h = N.sqrt(cov[2])
    ctx.eq('normal uncertainty', p[2], e[2] + za * h)
    ctx.eq('normal uncertainty (2)', q[2], e[2] + zb * h)
    ctx.lemma('uncertainty along the normal grows with confidence', [e[2], za, zb, h],
              lambda g: [('le', g[1], g[2]), ('le', 0, g[3])],
              lambda g: ('le', g[0] + g[1] * g[3], g[0] + g[2] * g[3]))
    ctx.le('uncertainty exceeds the nominal variance', e[2], p[2])


def grouped(ctx):
    """a group counts the points of all its members"""
    N = ctx.np
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    A = ctx.mod('attitude.error.axes')
    raw = [ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3) for i in range(2)]
    with ctx.one_side():
        fit = ctx.mod('attitude.orientation.grouped').GroupedOrientation(*[P(a) for a in raw])
        e, n = fit.eigenvalues, sum(a.shape[0] for a in raw)
        z = ctx.quantile('fppf', 0.95, 2, n - 2)
        ctx.eq('noise axes', fit.hyperbolic_axes, expected(N, e, 4 * e * e[2] / (n - 2), z))
        ctx.eq('sampling axes', A.sampling_axes(fit), expected(N, e, 2 * e ** 2 / (n - 1), z))


def reconstructed(ctx):
    """planes without points report the error axes they have"""
    A = ctx.mod('attitude.error.axes')
    R = ctx.mod('attitude.orientation.reconstructed').ReconstructedPlane
    fit = R(30.0, 20.0, 10.0, 3.0, 8.0)
    for t in 'noise', 'sampling':
        ctx.eq('own axes', A.hyperbolic_axes(fit, type=t), fit.hyperbolic_axes)


def statistic(ctx):
    n = ctx.real('n', lambda s, r: float(r.integers(4, 500)), lb=4, integer=True)
    cl = ctx.real('cl', CL)
    A = ctx.mod('attitude.error.axes')
    ctx.eq('fisher statistic', A.fisher_statistic(n, cl), ctx.quantile('fppf', cl, 2, n - 2))
    ctx.eq('fisher statistic (dof)', A.fisher_statistic(n, cl, dof=3), ctx.quantile('fppf', cl, 3, n - 3))


SCENARIOS = [
    Scenario('noise axes', noise),
    Scenario('sampling axes', sampling),
    Scenario('options', options),
    Scenario('monotone', monotone),
    Scenario('statistic', statistic),
    Scenario('group', grouped),
    Scenario('reconstructed', reconstructed, deductive=False, concrete=1),
]
