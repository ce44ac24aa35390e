"""Hyperbolic error bands around the nominal line of a view."""
from engine.run import Scenario
from engine import gens, draw

PRELOAD = ['attitude.orientation.pca', 'attitude.display', 'attitude.display.hyperbola']
ASSUMPTIONS = ['contracts of the drawing libraries (engine/draw.py): paths, polygons and features hold the positions they are given']


def frame(ctx, name='view'):
    """two orthonormal view axes (along, across)"""
    N = ctx.np
    if not ctx.symbolic:
        V = ctx.orthogonal(name, gens.rotation())[:2]
    else:
        # the proof does not need the axes to be orthonormal
        V = ctx.mat(name, (3, 3), gens.rotation())[:2]
    ctx.assume(N.dot(V[0], V[0]) > 0)
    return V


def any_xvals(ctx):
    # any number of positions, in any order
    return ctx.data('x', gens.planar('x', degenerate=False, min_n=1), min_len=1)[:, 0]


def check(ctx, N, h, ax, T, x, m, rev, **kw):
    H = ctx.mod('attitude.display.hyperbola').hyperbolic_errors
    keep = [ctx.snapshot(i) for i in (h, ax, x)]
    nom, btm, top = H(h, x, transformation=T, axes=ax, means=m, reverse=rev, **kw)
    top = top[:, ::-1]
    off = N.zeros(2) if m is None else m
    # extents of the quadric along and across the view
    k = len(h)
    R = N.identity(k) if T is None else T
    r0, r1 = N.dot(R, ax[0]), N.dot(R, ax[1])
    a2 = 1 / sum(r0[i] ** 2 / h[i] for i in range(k))
    b2 = 1 / sum(r1[i] ** 2 / h[i] for i in range(k))
    c = nom.T - off
    ctx.eq('nominal runs through the center', c[:, 0] ** 2 + c[:, 1] ** 2, x * x)
    one = H(h, N.array([1.0]), transformation=T, axes=ax, means=m, reverse=rev, **kw)[0][:, 0] - off
    ctx.eq('nominal is a straight line', c, N.array([x * one[0], x * one[1]]).T)
    ctx.eq('symmetric about the nominal line', top + btm, nom * 2)
    w = (top - nom).T
    ctx.eq('measured across the nominal line', w[:, 0] * c[:, 0] + w[:, 1] * c[:, 1], 0 * x,
           scale=None if ctx.symbolic else (1 + ctx.mag(c)) * (1 + ctx.mag(w, off=[off])))
    ctx.eq('hyperbola', (w[:, 0] ** 2 + w[:, 1] ** 2) / b2, 1 + x * x / a2, tol=1e-6)
    ctx.unchanged('axis lengths', h, keep[0])
    ctx.unchanged('view', ax, keep[1])
    ctx.unchanged('x values', x, keep[2])
    return nom, btm, top, a2, b2


def band(ctx):
    """the band in any view: a hyperbola centred on the nominal line"""
    N = ctx.np
    h = ctx.vec('h', 3, gens.positive(3, 0.05, 20), pos=True)
    ax = frame(ctx)
    x = any_xvals(ctx)
    m = ctx.vec('means', 2, gens.normal(2, 5.0)) if ctx.choose('offset', [True, False]) else None
    rev = ctx.choose('reverse', [False, True])
    # whether or not the apparent dip is corrected for, the band surrounds the nominal line
    kw = ctx.choose('correction', [{}, dict(correct_apparent_dip=False), dict(correct_apparent_dip=True)])
    check(ctx, N, h, ax, None, x, m, rev, **kw)


def flat_geometry(ctx):
    """bands of two-dimensional errors"""
    N = ctx.np
    h = ctx.vec('h', 2, gens.positive(2, 0.05, 20), pos=True)
    x = any_xvals(ctx)
    m = ctx.vec('means', 2, gens.normal(2, 5.0)) if ctx.choose('offset', [True, False]) else None
    check(ctx, N, h, N.identity(2), None, x, m, False)
    H = ctx.mod('attitude.display.hyperbola')
    # the view is the plane itself
    for i, j in zip(H.hyperbolic_errors(h, x, means=m), H.hyperbolic_errors(h, x, axes=N.identity(2), means=m)):
        ctx.eq('without view axes', i, j)
    ctx.eq('level', H.hyperbolic_errors(h, x)[0], N.array([x, 0 * x]))
    y = H.hyperbola_values(h, x)
    ctx.eq('hyperbola', y * y / h[1], 1 + x * x / h[0])
    ctx.lt('above the axis', 0 * x, y)


def positions(ctx):
    """in any order, repeated or single"""
    N = ctx.np
    h = ctx.vec('h', 3, gens.positive(3, 0.05, 20), pos=True)
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    x = r.normal(size=int(r.integers(1, 40))) * 10
    if r.integers(3) == 0:
        x = N.round(x)
    if r.integers(4) == 0:
        x = x.astype(int)
    if r.integers(4) == 0:
        x = N.repeat(x, 2)[::2]
    check(ctx, N, h, frame(ctx), None, x, None, False)
    HE = ctx.mod('attitude.display.hyperbola').HyperbolicErrors
    keep = x.copy()
    HE(h, x, means=N.array([1, 2]))
    ctx.true('x values', N.array_equal(x, keep))


def band_transformed(ctx):
    """... of a quadric rotated beforehand"""
    N = ctx.np
    h = ctx.vec('h', 3, gens.positive(3, 0.05, 20), pos=True)
    T = ctx.mat('T', (3, 3), gens.rotation())
    view = ctx.choose('view', [(0, 1), (0, 2), (1, 2), 'any'] if not ctx.symbolic else [(0, 1), (0, 2), (1, 2)])
    ax = frame(ctx) if view == 'any' else N.identity(3)[list(view)]
    x = any_xvals(ctx)
    check(ctx, N, h, ax, T, x, None, False)


def default_view(ctx):
    """without view axes: the second axis against the normal"""
    N = ctx.np
    H = ctx.mod('attitude.display.hyperbola').hyperbolic_errors
    h = ctx.vec('h', 3, gens.positive(3, 0.05, 20), pos=True)
    x = any_xvals(ctx)
    a = H(h, x)
    b = H(h, x, axes=N.array([[0, 1, 0], [0, 0, 1]]))
    for i, j in zip(a, b):
        ctx.eq('default view', i, j)
    ctx.eq('level', a[0], N.array([x, 0 * x]))
    ctx.lt('top is above', a[1][1], a[2][1, ::-1])
    ctx.eq('half width', a[2][1, ::-1] ** 2 / h[2], 1 + x * x / h[1])


def of_fit(ctx):
    """bands of a fit along its own axes"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False, min_n=5), min_len=5)
    a = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    if not ctx.symbolic:
        ctx.assume(a.singular_values[2] > 1e-6 * a.singular_values[0])
    h = a.hyperbolic_axes
    for i in range(3):
        ctx.assume(h[i] > 0)
    x = any_xvals(ctx)
    HE = ctx.mod('attitude.display.hyperbola').HyperbolicErrors
    err = a.angular_errors(degrees=False)
    for i in (0, 1):
        v = N.zeros(3)
        v[i] = 1
        nom, btm, top = HE(h, x, axes=N.array([v, [0, 0, 1]])).data
        ctx.eq('along the axis', nom, N.array([x, 0 * x]))
        y = top[1, ::-1]
        ctx.eq('width at the center is the error of the normal axis, opening at the angular error',
               y ** 2 / h[2], 1 + (x * N.tan(err[i])) ** 2 / h[2], tol=1e-6)


def correction(ctx):
    """the apparent dip correction is a rotation"""
    N = ctx.np
    V = N.array([ctx.unit('v', gens.near_unit())])
    R = ctx.mod('attitude.display.hyperbola').apparent_dip_correction(V)
    ctx.eq('rotation', N.dot(R, R.T), N.identity(2))
    ctx.eq('proper', R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0], 1)
    if V[0, 2] ** 2 > 1e-12:
        ctx.eq('by the plunge of the axis', R[0, 0] ** 2, 1 - V[0, 2] ** 2)
    else:
        ctx.le('none for flat axes', (R[0, 0] - 1) ** 2, 1e-12)


def plotted(ctx):
    """the plotted polygon is the band, also after an update"""
    N = ctx.np
    M = draw.load(ctx, 'attitude.display.hyperbola')
    a, b = ctx.real('x0', gens.uniform(-30, 0)), ctx.real('x1', gens.uniform(0.1, 40))
    x = N.linspace(a, b, ctx.choose('n', [2, 3, 50]) if not ctx.symbolic else 50)
    # an update may have more or fewer positions, and options of its own
    opts = ctx.choose('options', [(50, '', ''), (20, 'mr', ''), (70, 'm', 'r'), (50, '', 'mv'), (20, 'r', 'rmv')])
    xs = x, N.linspace(a, b, opts[0])
    bands = []
    for i in range(2):
        h = ctx.vec('h%d' % i, 3, gens.positive(3, 0.05, 20), pos=True)
        kw = dict(axes=frame(ctx, 'view%d' % i))
        if 'm' in opts[1 + i]:
            kw['means'] = ctx.vec('means%d' % i, 2, gens.normal(2, 5.0))
        if 'r' in opts[1 + i]:
            kw['reverse'] = True
        if 'v' in opts[1 + i]:
            del kw['axes']
        bands.append((h, kw))
    e = M.HyperbolicErrors(bands[0][0], x, **bands[0][1])
    ax = draw.Axes()
    e.plot(ax, fc='#cccccc', alpha=0.3)
    ctx.true('one patch', len(ax.patches) == 1)
    for k in range(2):
        x = xs[k]
        n = x.shape[0]
        if k:
            e.update_data(bands[1][0], x, **bands[1][1])
        nom, btm, top = M.hyperbolic_errors(bands[k][0], x, **bands[k][1])
        xy = ax.patches[0].get_xy()
        ctx.eq('bottom', xy[:n], btm.T)
        ctx.eq('top', xy[n:2 * n], top.T)
        e.plot_nominal(ax, 'k-')
        ctx.true('nominal', len(ax.lines) == k + 1)
        ctx.eq('nominal', N.array(ax.lines[k][0][:2]), nom)
    # shown in another panel as well
    other = draw.Axes()
    e.plot(other, fc='#cccccc')
    ctx.true('one patch in each panel', len(other.patches) == 1 and len(ax.patches) == 1)
    xy = other.patches[0].get_xy()
    ctx.eq('bottom in another panel', xy[:n], btm.T)
    ctx.eq('top in another panel', xy[n:2 * n], top.T)


def band_of(ctx, N, label, xy, h, i):
    """a drawn polygon is the band of error axes h along axis i"""
    xy = N.array(xy)
    n = xy.shape[0] // 2            # matplotlib repeats the first position to close a polygon
    x, low, high = xy[:n, 0], xy[:n, 1], xy[n:2 * n][::-1]
    ctx.eq(label + ': same positions above and below', high[:, 0], x)
    ctx.eq(label + ': symmetric', high[:, 1], -low)
    ctx.lt(label + ': top is above', 0 * x, high[:, 1])
    ctx.eq(label + ': hyperbola', high[:, 1] ** 2 / h[2], 1 + x * x / h[i], tol=1e-6)
    return x


def figures(ctx):
    """the figures of a fit show its bands"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False, min_n=5), min_len=5)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = fit.singular_values
    ctx.assume(s[2] > 1e-5 * s[0])
    E = ctx.mod('attitude.error.axes')
    noise, sampling = E.noise_axes(fit), E.sampling_axes(fit)
    for h in (noise, sampling):
        for i in range(3):
            ctx.assume(h[i] > 1e-7 * s[2] ** 2)
    which = ctx.choose('figure', ['aligned', 'comparison'])
    A = fit.rotated()
    # extent of the data along the first axis
    ctx.assume(A[:, 0].max() > 0)
    ctx.assume(A[:, 0].min() < 0)
    import matplotlib
    matplotlib.use('Agg')
    if which == 'aligned':
        f = ctx.mod('attitude.display.pca_aligned').plot_aligned
    else:
        f = ctx.mod('attitude.display.error_comparison').error_comparison
    fig = f(fit)
    try:
        if which == 'aligned':
            ctx.true('three panels', len(fig.axes) == 3 and [len(p.patches) for p in fig.axes] == [0, 1, 1])
            for i in (0, 1):
                x = band_of(ctx, N, 'section %d' % (i + 1), fig.axes[i + 1].patches[0].get_xy(), sampling, i)
                ctx.le('section %d: from one end of the data' % (i + 1), x[0], A[:, 0].min())
                ctx.le('section %d: to the other' % (i + 1), A[:, 0].max(), x[-1])
        else:
            p = fig.axes[0].patches
            ctx.true('three bands', len(p) == 3)
            band_of(ctx, N, 'variance', p[0].get_xy(), s, 1)
            band_of(ctx, N, 'sampling', p[1].get_xy(), sampling, 1)
            band_of(ctx, N, 'noise', p[2].get_xy(), noise, 1)
    finally:
        import matplotlib.pyplot as plt
        plt.close('all')


SCENARIOS = [
    Scenario('band', band),
    Scenario('transformed band', band_transformed),
    Scenario('two-dimensional band', flat_geometry),
    Scenario('positions', positions, deductive=False, concrete=40),
    Scenario('default view', default_view),
    Scenario('bands of a fit', of_fit),
    Scenario('apparent dip', correction),
    Scenario('plotted', plotted, concrete=40),
    Scenario('figures', figures, deductive=False, concrete=40, concrete_seconds=30),
]
