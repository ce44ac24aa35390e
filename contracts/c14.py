"""Planes reconstructed from strike, dip, rake and angular errors."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.orientation.reconstructed']


def inputs(ctx):
    s = ctx.real('strike', gens.uniform(-360, 720, special=(0.0, 90.0, 180.0, 270.0, 360.0, 45.0)))
    d = ctx.real('dip', gens.uniform(0, 90, special=(0.0, 90.0, 45.0, 1.0)))
    r = ctx.real('rake', gens.uniform(-180, 180, special=(0.0, 90.0, 180.0, -90.0, 45.0)))
    e = (ctx.real('e0', gens.uniform(0.05, 20)), ctx.real('e1', gens.uniform(0.1, 120)))
    ctx.assume(d >= 0)
    ctx.assume(d <= 90)
    for i in e:
        ctx.assume(i > 0)
        ctx.assume(i < 180)
    return s, d, r, e


def geometry(N, s, d, r):
    S, D, R = N.radians(s), N.radians(d), N.radians(r)
    along = N.array([N.sin(S), N.cos(S), 0])
    down = N.array([N.cos(S) * N.cos(D), -N.sin(S) * N.cos(D), -N.sin(D)])
    normal = N.array([N.cos(S) * N.sin(D), -N.sin(S) * N.sin(D), N.cos(D)])
    return along, down, normal, along * N.cos(R) + down * N.sin(R)


def orientation(ctx):
    N = ctx.np
    s, d, r, e = inputs(ctx)
    p = ctx.mod('attitude').ReconstructedPlane(s, d, r, *e)
    along, down, n, line = geometry(N, s, d, r)
    ctx.eq('normal', p.normal, n)
    ctx.eq('third axis is the upward normal', p.axes[2], n)
    ctx.eq('orthonormal axes', N.dot(p.axes, p.axes.T), N.identity(3))
    ctx.eq('second axis lies along the rake', N.dot(p.axes[1], line) ** 2, 1)
    ctx.eq('first axis lies across the rake', N.dot(p.axes[0], line), 0)
    ctx.true('inputs are kept', tuple(p.strike_dip_rake()) == (s, d, r) if not ctx.symbolic else
             all(i is j for i, j in zip(p.strike_dip_rake(), (s, d, r))))
    ctx.eq('angular errors are kept', N.array(list(p.angular_errors())), N.array(list(e)))


def errors(ctx):
    N = ctx.np
    s, d, r, e = inputs(ctx)
    k = ctx.real('k', gens.positive(1, 0.1, 5), pos=True) if ctx.choose('scaled', [True, False]) else None
    if k is not None and not ctx.symbolic:
        k = float(N.ravel(k)[0])
    kw = {} if k is None else dict(normal_error=k)
    p = ctx.mod('attitude').ReconstructedPlane(s, d, r, *e, **kw)
    h = p.hyperbolic_axes
    kk = 1 if k is None else k
    ctx.eq('error along the normal', h[2], kk)
    for i in range(3):
        ctx.lt('positive axes', 0, h[i])
    ctx.eq('first error is carried by the rake line', h[1] * N.sin(N.radians(e[0]) / 2), h[2] * N.cos(N.radians(e[0]) / 2))
    ctx.eq('second error is carried across it', h[0] * N.sin(N.radians(e[1]) / 2), h[2] * N.cos(N.radians(e[1]) / 2))
    ctx.eq('covariance', p.covariance_matrix, N.diag(h))


def girdle(ctx):
    """the nominal girdle is the great circle of the plane, the pole error surrounds its normal"""
    N = ctx.np
    s, d, r, e = inputs(ctx)
    p = ctx.mod('attitude').ReconstructedPlane(s, d, r, *e)
    S = ctx.mod('attitude.stereonet')
    along, down, n, line = geometry(N, s, d, r)
    axes = p.axes
    ctx.eq('third axis is the upward normal', axes[2], n)
    if ctx.symbolic:
        # from here on, any orthonormal axes with an upward normal (see 'orientation')
        axes = ctx.abstract_rotation('orthonormal axes', axes)
        n = axes[2]
        ctx.assume(n[2] >= 0)
    # half the angular error, doubled for both sides
    t = [2 * N.sin(N.radians(i) / 2) / N.cos(N.radians(i) / 2) for i in e]
    h = p.hyperbolic_axes
    ctx.eq('lengths of the axes', N.array([h[0] * t[1], h[1] * t[0], h[2]]), N.array([2, 2, 1]))
    cov = N.array(p.covariance_matrix)
    ctx.eq('covariance', cov, N.diag(h))
    if ctx.symbolic:
        # and any positive lengths
        h = ctx.abstract(h)
        for i in range(3):
            ctx.fact(h[i] > 0)
        cov = N.diag(h)
    g = N.array(S.plane_errors(axes, cov, sheet='nominal', n=30, traditional_layout=False)).T
    v = N.array([N.cos(g[1]) * N.sin(g[0]), -N.cos(g[1]) * N.cos(g[0]), N.sin(g[1])])
    ctx.eq('nominal', N.dot(n, v), 0 * g[0])
    g = N.array(S.normal_errors(axes, cov, n=30, traditional_layout=False)).T
    v = N.array([N.cos(g[1]) * N.sin(g[0]), -N.cos(g[1]) * N.cos(g[0]), N.sin(g[1])])
    q = N.dot(axes, v)
    ctx.eq('pole errors', (h[0] * q[0]) ** 2 + (h[1] * q[1]) ** 2, (2 * h[2] * q[2]) ** 2)


def same_as_fit(ctx):
    """a fit's strike and dip reconstruct its plane"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    n = f.normal
    s, d = f.strike_dip()
    p = ctx.mod('attitude').ReconstructedPlane(s, d, 0, 1, 2)
    if not ctx.symbolic and abs(n[2]) < 1e-12:
        # vertical up to rounding: either side is up
        n = n * N.sign(N.dot(n, p.normal))
    ctx.eq('normal', p.normal, n)


def rake_of_fit(ctx):
    """... and the rake its axes, up to the side of the dip direction"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    ctx.assume(1e-6 < abs(f.normal[2]) < 1 - 1e-9)
    s, d, r = f.strike_dip_rake()
    e = f.angular_errors()
    ctx.assume(0 < min(e) and max(e) < 80)
    got = []
    for k in (r, -r):
        p = ctx.mod('attitude').ReconstructedPlane(s, d, k, *e)
        ctx.eq('normal', p.normal, f.normal)
        got.append(max(1 - abs(N.dot(p.axes[i], f.axes[i])) for i in range(3)))
    ctx.le('axes', min(got), 1e-7)


def rake_axes(ctx):
    """the rake of a fit places its axes in the plane: (see 'orientation' for the axes at a given rake)"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    n = f.normal
    if ctx.symbolic:
        kind = ctx.choose('kind', ['inclined', 'horizontal', 'vertical'])
        if kind == 'inclined':
            ctx.assume(n[2] > 0)
            ctx.assume(n[2] < 1)
        elif kind == 'horizontal':
            ctx.assume(n[0] == 0)
            ctx.assume(n[1] == 0)
        else:
            ctx.assume(n[2] <= 0)
    else:
        # vertical up to rounding: either side is up; horizontal: any direction is the strike
        ctx.assume(n[2] == 0 or abs(n[2]) > 1e-12)
        ctx.assume(n[2] == 1 or abs(n[2]) < 1 - 1e-9)
    s, d, r = f.strike_dip_rake()
    R = N.radians(r)
    ctx.eq('rake of the first axis from the dip line', N.cos(R), N.dot(f.dip_dr, f.axes[0]))
    along, down, nn, line = geometry(N, s, d, r)
    ctx.eq('normal', nn, n)
    ctx.eq('dip line', f.dip_dr, -down)
    if ctx.symbolic and kind == 'horizontal':
        # that the second axis is perpendicular to the first is part of C01
        return
    # the second axis lies at the rake from the strike, on one side or the other
    ctx.eq('second axis', N.dot(f.axes[1], along) ** 2, N.cos(R) ** 2)
    ctx.eq('second axis', N.dot(f.axes[1], down) ** 2, N.sin(R) ** 2)


def vectors(ctx):
    """integer and array-like arguments behave like floats"""
    N = ctx.np
    R = ctx.mod('attitude').ReconstructedPlane
    s, d, r = [int(ctx.real(i, lambda a, b: float(b.integers(0, 90)))) for i in 'sdr']
    a, b = R(s, d, r, 2, 5), R(float(s), float(d), float(r), 2.0, 5.0)
    ctx.eq('axes', a.axes, b.axes)
    ctx.eq('hyperbolic axes', a.hyperbolic_axes, b.hyperbolic_axes)
    ctx.true('uid', a.hash == b.hash)


SCENARIOS = [
    Scenario('orientation', orientation),
    Scenario('errors', errors),
    Scenario('girdle', girdle),
    Scenario('same as fit', same_as_fit),
    Scenario('axes of fit', rake_axes),
    Scenario('rake of fit', rake_of_fit, deductive=False, concrete=60),
    Scenario('integer arguments', vectors, deductive=False, concrete=20),
]
