"""Error ellipses and parametric conics lie on the curves they stand for."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.base', 'attitude.error.ellipse', 'attitude.stereonet', 'attitude.display.parametric']


def covariance(ctx):
    """any positive definite 2x2 matrix, by its axes"""
    N = ctx.np
    th = ctx.real('th', gens.uniform(-3.2, 3.2, special=(0, 0.5)))
    s = ctx.vec('s', 2, gens.positive(2, 0.05, 20), pos=True)
    if ctx.symbolic:
        ctx.assume(s[0] > s[1])
    else:
        s = N.sort(s)[::-1]
    R = N.array([[N.cos(th), N.sin(th)], [-N.sin(th), N.cos(th)]])
    C = N.dot(R.T, N.dot(N.diag(s), R))
    ctx.known_svd(C, s, R)
    return C, s


def quadratic(C, dx, dy):
    """(p-c)^T C^-1 (p-c) without the inverse"""
    det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
    return (C[1, 1] * dx * dx - (C[0, 1] + C[1, 0]) * dx * dy + C[0, 0] * dy * dy) / det


def ellipse(ctx):
    N = ctx.np
    C, s = covariance(ctx)
    c = ctx.vec('c', 2, gens.normal(2, 10.0))
    level = ctx.real('level', gens.uniform(0.2, 4, special=(1, 2, 3)), pos=True)
    where = ctx.choose('module', ['attitude.error.ellipse', 'attitude.orientation.base'])
    form = ctx.choose('arguments', ['level and n', 'level', 'none'])
    n = 1000 if form != 'level and n' else ctx.choose('n', [1000, 50, 9])
    kw = {'level and n': dict(level=level, n=n), 'level': dict(level=level), 'none': {}}[form]
    if form == 'none':
        level = 1
    keep = ctx.snapshot(C), ctx.snapshot(c)
    e = ctx.mod(where).ellipse(tuple(c), C, **kw)
    u = N.linspace(0, 2 * N.pi, n)
    ctx.shape('positions', e, (u.shape[0], 2))
    dx, dy = e[:, 0] - c[0], e[:, 1] - c[1]
    ctx.eq('at that many standard deviations', quadratic(C, dx, dy), level * level + 0 * dx, tol=1e-6)
    # once around: the direction turns as far as the parameter
    # cos of the angle, measured in the metric of the covariance, from the first position
    det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
    x0, y0 = dx[0], dy[0]
    inner = (C[1, 1] * dx * x0 - C[0, 1] * (dx * y0 + dy * x0) + C[0, 0] * dy * y0) / det
    ctx.eq('evenly, once around', inner, level * level * N.cos(u), tol=1e-6)
    ctx.unchanged('covariance', C, keep[0])
    ctx.unchanged('center', c, keep[1])


def of_orientation(ctx):
    """the ellipse of an orientation is that of its first two coefficients"""
    N = ctx.np
    B = ctx.mod('attitude.orientation.base')
    C, s = covariance(ctx)
    c = ctx.vec('c', 3, gens.normal(3, 2.0))
    level = ctx.choose('level', [None, 1, 2.5])
    kw = {} if level is None else dict(level=level)
    k = level or 1

    class Some(B.BaseOrientation):
        pass
    o = Some()
    o.coefficients = c
    o.azimuth = ctx.real('azimuth', gens.uniform(-3, 3))
    z = ctx.vec('z', 3, gens.normal(3, 2.0))
    o.covariance_matrix = N.array([[C[0, 0], C[0, 1], z[0]], [C[1, 0], C[1, 1], z[1]], [z[0], z[1], z[2]]])
    if ctx.symbolic:
        C = o.covariance_matrix[:2, :2]
    keep = ctx.snapshot(o.covariance_matrix), ctx.snapshot(c)
    y, x = o.error_ellipse(spherical=False, **kw)
    ctx.eq('at that many standard deviations', quadratic(C, x - c[0], y - c[1]), k * k + 0 * x, tol=1e-6)
    # the same, in angles
    for vector in (False, True):
        a, s = o.error_ellipse(vector=vector, **kw)
        if vector:
            a = a - N.pi / 2
        if not ctx.symbolic:
            ctx.assume(N.abs(x).min() > 1e-6)
        ctx.eq('slope', x * N.sin(s), -N.cos(s), tol=1e-6)
        d = a - N.pi - o.azimuth
        ctx.eq('azimuth', x * N.sin(d), y * N.cos(d), tol=1e-6)
        ctx.le('azimuth, on the side of the slope', 0 * x, -x * N.cos(d))
    # variances along and across the azimuth
    h = o.azimuth
    V = o.covariance_matrix
    along = V[0, 0] * N.cos(h) ** 2 + 2 * V[0, 1] * N.cos(h) * N.sin(h) + V[1, 1] * N.sin(h) ** 2
    across = V[0, 0] * N.sin(h) ** 2 - 2 * V[0, 1] * N.cos(h) * N.sin(h) + V[1, 1] * N.cos(h) ** 2
    r = o.rotated_covariance
    ctx.eq('variance along', r[0, 0], along)
    ctx.eq('variance across', r[1, 1], across)
    ctx.eq('third variance', r[2, 2], V[2, 2])
    ctx.unchanged('covariance', o.covariance_matrix, keep[0])
    ctx.unchanged('coefficients', c, keep[1])


def circle(ctx):
    """the bundle of directions errors are drawn with"""
    N = ctx.np
    S = ctx.mod('attitude.stereonet')
    n = ctx.choose('n', [None, 1000, 7])
    e = S.ellipse() if n is None else S.ellipse(n=n)
    n = n or 1000
    u = N.linspace(0, 2 * N.pi, n)
    ctx.shape('directions', e, (u.shape[0], 2))
    ctx.eq('once around the circle', e, N.array([N.cos(u), N.sin(u)]).T)
    d = ctx.vec('d', 3, gens.positive(3, 0.05, 20), pos=True)
    lv = ctx.choose('confidence', [None, 0.95, 0.68])
    out = S.scale_errors(d) if lv is None else S.scale_errors(d, confidence_level=lv)
    ctx.eq('scaled to the confidence level', out ** 2, d * ctx.quantile('chi2ppf', lv or 0.95, 3))
    ctx.le('lengths', 0 * d, out)


def parametric(ctx):
    N = ctx.np
    P = ctx.mod('attitude.display.parametric')
    a = ctx.vec('a', 2, gens.positive(2, 0.05, 20), pos=True)
    c = ctx.vec('c', 2, gens.normal(2, 10.0))
    with_center = ctx.choose('center', [True, False])
    n = ctx.choose('n', [None, 500, 40])
    kw = {} if n is None else dict(n=n)
    if with_center:
        kw['center'] = c
    else:
        c = N.zeros(2)
    keep = ctx.snapshot(a), ctx.snapshot(c)
    x, y = P.ellipse(a, **kw)
    u = N.linspace(0, 2 * N.pi, n or 500)
    ctx.shape('positions', x, u.shape)
    ctx.eq('ellipse', ((x - c[0]) / a[0]) ** 2 + ((y - c[1]) / a[1]) ** 2, 1 + 0 * x)
    ctx.unchanged('axes', a, keep[0])
    ctx.unchanged('center', c, keep[1])


def hyperbola(ctx):
    N = ctx.np
    P = ctx.mod('attitude.display.parametric')
    a = ctx.vec('a', 2, gens.positive(2, 0.05, 20), pos=True)
    c = ctx.vec('c', 2, gens.normal(2, 10.0))
    n = ctx.choose('n', [None, 500, 40])
    kw = {} if n is None else dict(n=n)
    if ctx.choose('center', [True, False]):
        kw['center'] = c
    else:
        c = N.zeros(2)
    keep = a.copy(), c.copy()
    up = ctx.choose('opens', [None, True, False])
    if up is not None:
        kw['opens_up'] = up
    x, y = P.hyperbola(a, **kw)
    ok = ~N.isnan(x)
    ctx.true('all but the asymptotes', ok.sum() >= len(x) - 2 and len(x) == (n or 500) and (ok == ~N.isnan(y)).all())
    u, v = (x[ok] - c[0]) / a[0], (y[ok] - c[1]) / a[1]
    if up is False:
        u, v = v, u
    w = 1 + u * u + (N.abs(c / a).max() * N.abs(u)) ** 2
    ctx.eq('hyperbola', (v * v - u * u) / w, 1 / w, tol=1e-6)
    ctx.true('both branches', (v > 0).any() and (v < 0).any())
    ctx.true('later calls start at the origin again', (P.defaults['center'] == 0).all())
    ctx.unchanged('axes', a, keep[0])
    ctx.unchanged('center', c, keep[1])


def of_regression(ctx):
    """the ellipse of a regression"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.linear').LinearOrientation(arr)
    C, c = N.array(f.covariance_matrix), N.array(f.coefficients)
    w = N.linalg.eigvalsh(C[:2, :2])
    ctx.assume(N.isfinite(C).all() and w[0] > 1e-7 * w[1] and w[1] > 1e-9 * N.abs(c[:2]).max() ** 2)
    for level in (1, 2):
        y, x = f.error_ellipse(spherical=False, level=level)
        ctx.eq('at that many standard deviations', quadratic(C, x - c[0], y - c[1]), level ** 2 + 0 * x, tol=1e-4)
        a, s = f.error_ellipse(level=level)
        ctx.eq('slope', N.cos(s) / N.sqrt(1 + x * x), -x * N.sin(s) / N.sqrt(1 + x * x), tol=1e-6)


def ellipsoid(ctx):
    """the error ellipsoid of a fit: `level` standard deviations along each axis, about the upward normal"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = f.singular_values
    ctx.assume(s[2] > (0 if ctx.symbolic else 1e-6 * s[0]))
    level = ctx.choose('level', [None, 1]) if ctx.choose('plain', [True, False]) else ctx.real('level', gens.uniform(0.2, 4), pos=True)
    M = f.as_conic() if level is None else f.as_conic(level=level)
    k = 1 if level is None else level
    cov = N.diagonal(f.covariance_matrix)
    axes = f.axes if f.axes[2, 2] >= 0 else -f.axes
    c = f.offset[2] * axes[2]
    form = lambda p, q: N.dot(N.append(p, 1), N.dot(M, N.append(q, 1)))
    # in units of the entries of the matrix, which grow with the ratio of the offset to the errors
    u = 1 + N.dot(c, c) / (cov[2] * k * k)
    ctx.eq('center', form(c, c) / u, -1 / u)
    h = lambda p: N.append(p, 0)
    for i in range(3):
        w = 1 + cov[i] / cov[2]
        ctx.eq('axis %d' % i, N.dot(h(axes[i]), N.dot(M, h(axes[i]))) * cov[i] * k * k / w, 1 / w)
        ctx.eq('axis %d is conjugate to the center' % i, N.dot(h(axes[i]), N.dot(M, N.append(c, 1))) * N.sqrt(cov[i]) * k / w / u, 0)
        ctx.eq('axes %d and %d are conjugate' % (i, (i + 1) % 3), N.dot(h(axes[i]), N.dot(M, h(axes[(i + 1) % 3])))
               * N.sqrt(cov[i] * cov[(i + 1) % 3]) * k * k / w, 0)


def cone(ctx):
    """the error ellipse of a fit: the directions in which the ellipsoid is seen to end"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = f.singular_values
    axes = f.axes if f.axes[2, 2] >= 0 else -f.axes
    cov = N.diagonal(f.covariance_matrix)
    ctx.assume(s[2] > 1e-4 * s[0] and abs(axes[2, 2]) > 1e-6)
    keep = [i.copy() for i in (f.axes, f.array, f.covariance_matrix)]
    last = None
    for level in (None, 1, 1.5, 2, 3):
        k = level or 1
        t = f.offset[2]
        if t * t < 1.01 * cov[2] * k * k:
            # the origin is inside
            break
        tr, pl = f.error_ellipse() if level is None else f.error_ellipse(level=level)
        d = N.array([N.cos(pl) * N.sin(tr), N.cos(pl) * N.cos(tr), N.sin(pl)]).T.dot(axes.T).T
        # tangent to x^2/cov0 + y^2/cov1 + (z-t)^2/cov2 = level^2
        q = d[0] ** 2 / cov[0] + d[1] ** 2 / cov[1]
        ctx.eq('tangent', q / (q + d[2] ** 2 / cov[2]), (k * k / (t * t - k * k * cov[2])) * d[2] ** 2 / (q + d[2] ** 2 / cov[2]), tol=1e-6)
        ctx.lt('around the normal', 0 * d[2], d[2])
        ctx.lt('on both sides', N.array([d[0].min(), d[1].min()]), N.zeros(2))
        ctx.lt('on both sides', N.zeros(2), N.array([d[0].max(), d[1].max()]))
    for a, b in zip(keep, (f.axes, f.array, f.covariance_matrix)):
        ctx.unchanged('the fit', b, a)


def drawn(ctx):
    """plots of the error ellipse of a fit show it at each level"""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = f.singular_values
    ctx.assume(s[2] > 1e-4 * s[0] and f.offset[2] ** 2 > 9.1 * f.covariance_matrix[2, 2])
    D = ctx.mod('attitude.display')
    what = ctx.choose('plot', ['strike_dip', 'trend_plunge', 'figure'])
    levels = ctx.choose('levels', [[1], [1, 2], [3, 1, 2]])
    kw = dict(levels=levels, alpha=[0.5, 0.4, 0.3][:len(levels)])
    if what == 'figure':
        levels = [1, 2, 3]
        ax = D.error_ellipse(f).axes[0]
    else:
        ax = Figure().add_subplot(111)
        if levels == [1]:
            kw = {}
        getattr(D, what)(f, ax=ax, **kw)
    ctx.true('one patch for each level', len(ax.patches) == len(levels))
    for k, p in zip(levels, ax.patches):
        tr, pl = f.error_ellipse(level=k)
        xy = p.get_xy()[:len(tr)]
        if what == 'trend_plunge':
            # as a line of that plunge and trend on the net
            d = N.array([N.cos(xy[:, 1]) * N.sin(xy[:, 0]), N.sin(xy[:, 1])])
            ctx.eq('trend and plunge', d, N.array([N.cos(pl) * N.sin(tr), N.cos(pl) * N.cos(tr)]))
        else:
            ctx.eq('trend', xy[:, 0], N.degrees(tr))
            ctx.eq('dip', xy[:, 1], 90 - N.degrees(pl))
    if kw.get('alpha') or what == 'figure':
        ctx.true('transparency', [p.get_alpha() for p in ax.patches] == [0.5, 0.4, 0.3][:len(levels)])


SCENARIOS = [
    Scenario('ellipse', ellipse),
    Scenario('ellipse of an orientation', of_orientation),
    Scenario('circle', circle),
    Scenario('parametric', parametric),
    Scenario('hyperbola', hyperbola, deductive=False, concrete=30),
    Scenario('ellipse of a regression', of_regression, deductive=False, concrete=30),
    Scenario('error ellipsoid of a fit', ellipsoid),
    Scenario('error ellipse of a fit', cone, deductive=False, concrete=30),
    Scenario('drawn', drawn, deductive=False, concrete=20),
]
