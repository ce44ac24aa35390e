"""Error girdles and pole errors on the stereonet."""
from engine.run import Scenario
from engine import gens, draw

PRELOAD = ['attitude.orientation.pca', 'attitude.stereonet', 'attitude.display']
ASSUMPTIONS = ['contracts of the drawing libraries (engine/draw.py): paths, polygons and features hold the positions they are given']


def inputs(ctx):
    axes = ctx.orthogonal('axes', gens.rotation())
    d = ctx.vec('d', 3, gens.positive(3, 0.05, 20), pos=True)
    level = ctx.real('level', gens.uniform(0.2, 4, special=(1, 2)), pos=True)
    return axes, ctx.np.diag(d), d, level


def direction(N, lonlat, traditional):
    """the cartesian directions of (lon, lat) positions"""
    ll = N.array(lonlat).T
    lon, lat = ll[0], ll[1]
    if traditional:
        return N.array([N.cos(lat) * N.sin(lon), N.sin(lat), N.cos(lat) * N.cos(lon)]).T
    return N.array([N.cos(lat) * N.sin(lon), -N.cos(lat) * N.cos(lon), N.sin(lat)]).T


def layout(ctx):
    """north at the pole of the diagram unless asked for otherwise"""
    trad = ctx.choose('layout', [True, False, None])
    return (True, {}) if trad is None else (trad, dict(traditional_layout=trad))


def girdle(ctx):
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    S = ctx.mod('attitude.stereonet')
    trad, lay = layout(ctx)
    keep = ctx.snapshot(axes), ctx.snapshot(cov)
    n = ctx.choose('n', [100, 7])
    u = N.linspace(0, 2 * N.pi, n)
    for sheet, sg in (('upper', 1), ('lower', -1), ('nominal', 0)):
        kw = dict(sheet=sheet, n=n, **lay)
        if not lay:
            level = 1
            if sheet == 'upper':
                kw.pop('sheet')
        elif sheet != 'nominal':
            kw['level'] = level
        g = S.plane_errors(axes, cov, **kw)
        q = N.dot(direction(N, g, trad), axes.T).T     # in the frame of the fit
        up = -1 if axes[2, 2] >= 0 else 1
        # one position for each direction within the plane
        ctx.eq(sheet + ': direction within the plane', q[0] * d[1] * N.sin(u), q[1] * d[0] * N.cos(u))
        if sg == 0:
            ctx.eq('nominal lies in the plane', q[2], 0 * u)
        else:
            ctx.eq(sheet + ': inclination from the plane', q[0] ** 2 / d[0] ** 2 + q[1] ** 2 / d[1] ** 2,
                   q[2] ** 2 / (2 * level * d[2]) ** 2)
            ctx.lt(sheet + ': side of the plane', 0 * u, q[2] * (sg * up))
            if lay:
                z = S.plane_errors(axes, cov, sheet=sheet, n=n, level=0, **lay)
                ctx.eq(sheet + ': no errors at level zero', N.dot(direction(N, z, trad), axes[2]), 0 * u)
    ctx.unchanged('axes', axes, keep[0])
    ctx.unchanged('covariance', cov, keep[1])


def symmetric(ctx):
    """the sheets are point reflections of each other, and do not depend on the sign of the axes"""
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    S = ctx.mod('attitude.stereonet')
    trad = ctx.choose('layout', [True, False])
    u = N.linspace(0, 2 * N.pi, 60)
    kw = dict(n=60, level=level, traditional_layout=trad)
    a = direction(N, S.plane_errors(axes, cov, 'upper', **kw), trad)
    b = direction(N, S.plane_errors(axes, cov, 'lower', **kw), trad)
    t = N.dot(a, axes.T).T, N.dot(b, axes.T).T
    ctx.eq('mirror images', t[0][0], t[1][0])
    ctx.eq('mirror images', t[0][1], t[1][1])
    ctx.eq('mirror images', t[0][2], -t[1][2])
    if axes[2, 2] == 0:
        return
    c = direction(N, S.plane_errors(-axes, cov, 'upper', **kw), trad)
    # -axes starts at the opposite end of the first axis: -c is the lower sheet
    ctx.eq('upside-down fit', -c, b)


def iterative(ctx):
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    S = ctx.mod('attitude.stereonet')
    n = 40
    for sheet in ('upper', 'lower', 'nominal'):
        a = N.array(S.plane_errors(axes, cov, sheet, n=n, level=level))
        b = N.array(S.iterative_plane_errors(axes, cov, sheet=sheet, n=n, level=level))
        ctx.eq(sheet + ': vectorized and iterative girdles agree', direction(N, a, True), direction(N, b, True))
    trad, lay = layout(ctx)
    kw = dict(n=n, level=level, **lay) if lay else dict(n=n)
    a = N.array(S.normal_errors(axes, cov, n=n, level=level if lay else 1, traditional_layout=trad))
    b = N.array(S.iterative_normal_errors(axes, cov, **kw))
    ctx.eq('vectorized and iterative pole errors agree', direction(N, a, trad), direction(N, b, trad))


def pole(ctx):
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    S = ctx.mod('attitude.stereonet')
    trad, lay = layout(ctx)
    keep = ctx.snapshot(axes), ctx.snapshot(cov)
    n = 50
    u = N.linspace(0, 2 * N.pi, n)
    kw = dict(level=level) if ctx.choose('level given', [True, False]) else {}
    if not kw:
        level = 1
    kw.update(lay)
    p = direction(N, S.normal_errors(axes, cov, n=n, **kw), trad)
    if trad:
        # the pole is plotted with y reversed
        p = N.array([p.T[0], -p.T[1], p.T[2]]).T
    q = N.dot(p, axes.T).T
    up = 1 if axes[2, 2] >= 0 else -1
    ctx.eq('pole errors bound the planes tangent to the girdle',
           (d[0] * q[0]) ** 2 + (d[1] * q[1]) ** 2, (2 * level * d[2] * q[2]) ** 2)
    ctx.lt('on the side of the upward normal', 0 * u, q[2] * up)
    ctx.eq('in the direction of the girdle', q[0] * N.sin(u), q[1] * N.cos(u))
    ctx.unchanged('axes', axes, keep[0])
    ctx.unchanged('covariance', cov, keep[1])
    if axes[2, 2] == 0:
        # either normal of a vertical plane is as upward as the other
        return
    p2 = direction(N, S.normal_errors(-axes, cov, n=n, **kw), trad)
    if trad:
        p2 = N.array([p2.T[0], -p2.T[1], p2.T[2]]).T
    ctx.eq('upside-down fit', p2, p)


def coords(ctx):
    """coordinates for plotting: nominal and error sheets, at each level, in degrees"""
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    S = ctx.mod('attitude.stereonet')
    trad, lay = layout(ctx)
    kw = dict(n=30, **lay)
    levels = ctx.choose('levels', [None, (1, 2, 3), ('level', 2)])
    if levels is None:
        out = S.error_coords(axes, cov, ellipse=False, **kw)
        got = {1: out}
    else:
        ls = [level if i == 'level' else i for i in levels]
        if not ctx.symbolic:
            ctx.assume(len(set(ls)) == len(ls))
        out = S.error_coords(axes, cov, levels=ls, ellipse=False, **kw)
        ctx.true('one entry for each level', len([k for k in out if k != 'nominal']) == len(ls))
        got = {i: out[i] for i in ls}
    ctx.eq('nominal', N.radians(N.array(out['nominal'])), N.array(S.plane_errors(axes, cov, 'nominal', **kw)))
    for l, o in got.items():
        for sheet in ('upper', 'lower'):
            ctx.eq('%s' % sheet, N.radians(N.array(o[sheet])), N.array(S.plane_errors(axes, cov, sheet, level=l, **kw)))


def of_fit(ctx):
    """the errors of a fit are those of its axes and covariance"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    S = ctx.mod('attitude.stereonet')
    a = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = a.singular_values
    ctx.assume(s[2] > (0 if ctx.symbolic else 1e-7 * s[0]))
    cov = a.covariance_matrix
    ctx.eq('covariance of the fit', cov, N.diag([4 * s[i] * s[i] ** 2 / a.n for i in range(3)]))
    for sheet in ('upper', 'lower', 'nominal'):
        g = direction(N, a.plane_errors(sheet=sheet, n=20), True)
        ctx.eq(sheet, g, direction(N, S.plane_errors(a.axes, N.array(cov), sheet=sheet, n=20), True))
        q = N.dot(g, a.axes.T).T
        if sheet == 'nominal':
            ctx.eq('nominal is perpendicular to the normal of the fit', N.dot(g, a.normal), 0 * q[2])
        else:
            # upper: below the plane, in the sense of its upward normal
            ctx.lt(sheet + ' side', 0 * q[2], N.dot(g, a.normal) * (-1 if sheet == 'upper' else 1))
    e = a.error_coords(n=20, ellipse=False)
    ctx.eq('coordinates', direction(N, N.radians(N.array(e['upper'])), True),
           direction(N, a.plane_errors(sheet='upper', n=20), True))


class Fit(object):
    """anything with axes and covariance"""
    def __init__(self, axes, cov):
        self.axes, self.covariance_matrix = axes, cov


def rings(path):
    return [i for i, k in enumerate(path.codes) if k == path.MOVETO]


def drawn(ctx):
    """what is drawn on a stereonet or a polar plot is the computed error, for any axes"""
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    mod = lambda name: draw.load(ctx, 'attitude.' + name)
    S, D, P = mod('stereonet'), mod('display.stereonet'), mod('display.polar')
    fit = Fit(axes, cov)
    keep = ctx.snapshot(axes), ctx.snapshot(cov)
    up, lo = [N.array(S.plane_errors(axes, cov, sheet=i, level=1, traditional_layout=True)) for i in ('upper', 'lower')]
    n = up.shape[0]
    ax = draw.Axes()
    D.girdle_error(ax, fit)
    ctx.true('one patch', len(ax.patches) == 1)
    path = ax.patches[0].get_path()
    v = N.array(path.vertices)
    ctx.shape('girdle: two rings', v, (2 * n, 2))
    pos = lambda ll: direction(N, ll, True)
    ctx.eq('girdle: upper sheet', pos(-v[:n]), pos(up))
    ctx.eq('girdle: lower sheet, in reverse order', pos(-v[n:]), pos(lo[::-1]))
    ctx.true('girdle: two rings', rings(path) == [0, n])
    ctx.true('girdle: closed by lines', set(int(c) for c in path.codes) == {1, 2})
    nm = N.array(S.normal_errors(axes, cov, level=1, traditional_layout=True))
    ax = draw.Axes()
    D.pole_error(ax, fit, color='red')
    ctx.true('one patch', len(ax.patches) == 1)
    path = ax.patches[0].get_path()
    v = N.array(path.vertices)
    ctx.shape('pole error', v, (n, 2))
    ctx.eq('pole error', pos(N.array([-v[:, 0], v[:, 1]]).T), pos(nm))
    ctx.true('pole error: one ring', rings(path) == [0])
    ax = draw.Axes()
    P.pole_error(ax, fit)
    v = N.array(ax.patches[0].get_path().vertices)
    ctx.shape('polar', v, (n, 2))
    # dip direction and dip of the planes with these poles
    p = direction(N, S.normal_errors(axes, cov, traditional_layout=False), False)
    a, r = v[:, 0], N.radians(v[:, 1])
    ctx.eq('polar radius is the dip', N.cos(r), p[:, 2])
    ctx.eq('polar angle is the dip direction', N.array([N.sin(r) * N.sin(a), N.sin(r) * N.cos(a)]), N.array([p[:, 0], p[:, 1]]))
    # a plane by its strike and dip
    strike, dip = ctx.real('strike', gens.uniform(-360, 720)), ctx.real('dip', gens.uniform(0, 90))
    ax = draw.Axes()
    P.pole(ax, strike, dip)
    ctx.true('polar pole: one position', len(ax.lines) == 1 and len(ax.lines[0][0]) == 2)
    a, r = ax.lines[0][0]
    h = N.radians(strike)
    ctx.eq('polar pole: angle is the dip direction', N.array([N.sin(a), N.cos(a)]), N.array([N.cos(h), -N.sin(h)]))
    ctx.eq('polar pole: radius is the dip', r, dip)
    ctx.unchanged('axes', axes, keep[0])
    ctx.unchanged('covariance', cov, keep[1])


def mapped(ctx):
    """what is put on a map is the computed error, in degrees"""
    N = ctx.np
    axes, cov, d, level = inputs(ctx)
    mod = lambda name: draw.load(ctx, 'attitude.' + name)
    S, C, R = mod('stereonet'), mod('display.cartopy'), mod('orientation.reconstructed')
    of = ctx.choose('of', ['any plane', 'error shell', 'fit'])
    if of == 'fit':
        # with the options for the error axes passed on
        arr = ctx.data('data', gens.planar(degenerate=False, min_n=5), min_len=5)
        fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
        s = fit.singular_values
        ctx.assume(s[2] > (0 if ctx.symbolic else 1e-7 * s[0]))
        kw = ctx.choose('options', [{}, dict(confidence_level=0.68), dict(type='sampling', confidence_level=0.99),
                                    dict(variance_on_all_axes=False), dict(chisq=True, dof=3)])
        E = ctx.mod('attitude.error.axes')
        e = {k: v for k, v in kw.items() if k != 'type'}
        axes, cov = fit.axes, N.diag(E.sampling_axes(fit, **e) if 'type' in kw else E.noise_axes(fit, **e))
        girdle, normal, trad = (lambda: C.cartopy_girdle(fit, **kw)), (lambda: C.cartopy_normal(fit, **kw)), True
    elif of == 'any plane':
        fit = Fit(axes, cov * 0)
        fit.hyperbolic_axes = d
        girdle, normal, trad = (lambda: C.cartopy_girdle(fit)), (lambda: C.cartopy_normal(fit)), True
    else:
        fit = R.ErrorShell(axes, cov)
        girdle, normal, trad = fit.cartopy_girdle, fit.cartopy_normal, False
    up, lo = [N.degrees(N.array(S.plane_errors(axes, cov, sheet=i, level=1, traditional_layout=trad))) for i in ('upper', 'lower')]
    nm = N.degrees(N.array(S.normal_errors(axes, cov, level=1, traditional_layout=trad)))
    n = up.shape[0]
    geoms = list(girdle().geometries())
    ctx.true('one area', len(geoms) == 1 and len(geoms[0].interiors) == 1)
    # the direction of a ring has no meaning
    inner = N.array(geoms[0].interiors[0].coords)[:n, :2]
    ctx.eq('girdle: upper sheet', N.array(geoms[0].exterior.coords)[:n, :2], up)
    ctx.eq('girdle: lower sheet', inner[::-1] if trad else inner, lo)
    geoms = list(normal().geometries())
    ctx.true('one area', len(geoms) == 1 and len(geoms[0].interiors) == 0)
    ctx.eq('pole error', N.array(geoms[0].exterior.coords)[:n, :2], nm)


def plots(ctx):
    """what the plotting functions draw is the computed error"""
    N = ctx.np
    kind = ctx.choose('kind', ['fit', 'plane'])
    if kind == 'fit':
        arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
        fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
        ctx.assume(fit.singular_values[2] > 1e-7 * fit.singular_values[0])
    else:
        args = (ctx.real('strike', gens.uniform(0, 360)), ctx.real('dip', gens.uniform(1, 89)),
                ctx.real('rake', gens.uniform(0, 180)), ctx.real('e0', gens.uniform(0.1, 10)),
                ctx.real('e1', gens.uniform(10, 40)))
        fit = ctx.mod('attitude').ReconstructedPlane(*args)
    S = ctx.mod('attitude.stereonet')
    D = ctx.mod('attitude.display.stereonet')
    P = ctx.mod('attitude.display.polar')
    up, lo = [N.array(S.plane_errors(fit.axes, fit.covariance_matrix, sheet=i)) for i in ('upper', 'lower')]
    nm = N.array(S.normal_errors(fit.axes, fit.covariance_matrix))

    def pos(ll):
        return direction(N, ll, True)
    ax = draw.Axes()
    D.girdle_error(ax, fit)
    ctx.true('one patch', len(ax.patches) == 1)
    path = ax.patches[0].get_path()
    v, c = N.array(path.vertices), list(path.codes)
    ctx.shape('girdle', v, (2000, 2))
    ctx.eq('girdle is the area between the sheets', pos(-v), N.vstack((pos(up), pos(lo)[::-1])))
    ctx.true('two rings', [i for i, k in enumerate(c) if k == path.MOVETO] == [0, 1000])
    ctx.true('closed by lines', set(c) == {path.MOVETO, path.LINETO})
    ax = draw.Axes()
    D.pole_error(ax, fit, color='red')
    path = ax.patches[0].get_path()
    v = N.array(path.vertices) * N.array([-1, 1])
    ctx.eq('pole error', pos(v), pos(nm))
    ctx.true('one ring', [i for i, k in enumerate(path.codes) if k == path.MOVETO] == [0])
    # polar plot: dip direction and dip of the planes with these poles
    ax = draw.Axes()
    P.pole_error(ax, fit)
    v = N.array(ax.patches[0].get_path().vertices)
    p = direction(N, N.array(S.normal_errors(fit.axes, fit.covariance_matrix, traditional_layout=False)), False)
    ctx.eq('polar radius is the dip', N.cos(N.radians(v[:, 1])), p[:, 2])
    h = N.hypot(p[:, 0], p[:, 1])
    ok = h > 1e-6
    ctx.eq('polar angle is the dip direction', N.array([N.sin(v[ok, 0]), N.cos(v[ok, 0])]),
           N.array([p[ok, 0], p[ok, 1]]) / h[ok])
    if kind == 'plane':
        for f, g in ((D.uncertain_plane, D.girdle_error), (D.uncertain_pole, D.pole_error),
                     (P.uncertain_pole, P.pole_error)):
            a, b = draw.Axes(), draw.Axes()
            f(a, *args)
            g(b, fit)
            ctx.eq('plot from strike, dip and errors', N.array(a.patches[0].get_path().vertices),
                   N.array(b.patches[0].get_path().vertices))


def cartopy(ctx):
    N = ctx.np
    S = ctx.mod('attitude.stereonet')
    C = ctx.mod('attitude.display.cartopy')
    A = ctx.mod('attitude.error.axes')
    kind = ctx.choose('kind', ['fit', 'plane'])
    if kind == 'fit':
        arr = ctx.data('data', gens.planar(degenerate=False, min_n=5), min_len=5)
        fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
        ctx.assume(fit.singular_values[2] > 1e-7 * fit.singular_values[0])
        type = ctx.choose('type', ['noise', 'sampling', None])
        kw = {} if type is None else dict(type=type)
        d = A.sampling_axes(fit) if type == 'sampling' else A.noise_axes(fit)
    else:
        fit = ctx.mod('attitude').ReconstructedPlane(
            ctx.real('strike', gens.uniform(0, 360)), ctx.real('dip', gens.uniform(1, 89)),
            ctx.real('rake', gens.uniform(0, 180)), ctx.real('e0', gens.uniform(0.1, 10)),
            ctx.real('e1', gens.uniform(10, 40)))
        kw, d = {}, fit.hyperbolic_axes
        for g, f, tr in ((fit.cartopy_girdle, 'girdle', False),):
            poly = list(g().geometries())[0]
            for ring, sheet in ((poly.exterior, 'upper'), (poly.interiors[0], 'lower')):
                e = N.degrees(N.array(S.plane_errors(fit.axes, fit.covariance_matrix, sheet=sheet, traditional_layout=False)))
                ctx.eq('map girdle of a reconstructed plane', N.array(ring.coords)[:len(e)], e)
        poly = list(fit.cartopy_normal().geometries())[0]
        e = N.degrees(N.array(S.normal_errors(fit.axes, fit.covariance_matrix, traditional_layout=False)))
        ctx.eq('map pole error of a reconstructed plane', N.array(poly.exterior.coords)[:len(e)], e)
    cm = N.diag(d)
    poly = list(C.cartopy_girdle(fit, **kw).geometries())[0]
    u = N.degrees(N.array(S.plane_errors(fit.axes, cm, sheet='upper')))
    l = N.degrees(N.array(S.plane_errors(fit.axes, cm, sheet='lower')))
    ctx.eq('map girdle', N.array(poly.exterior.coords)[:len(u)], u)
    ctx.eq('map girdle, other side', N.array(poly.interiors[0].coords)[:len(u)], l[::-1])
    poly = list(C.cartopy_normal(fit, **kw).geometries())[0]
    ctx.eq('map pole error', N.array(poly.exterior.coords)[:len(u)], N.degrees(N.array(S.normal_errors(fit.axes, cm))))


SCENARIOS = [
    Scenario('girdle', girdle),
    Scenario('symmetric', symmetric),
    Scenario('iterative', iterative),
    Scenario('pole', pole),
    Scenario('coordinates', coords),
    Scenario('errors of a fit', of_fit),
    Scenario('drawn', drawn),
    Scenario('mapped', mapped),
    Scenario('maps', cartopy, deductive=False, concrete=12),
    Scenario('plots', plots, deductive=False, concrete=40),
]
