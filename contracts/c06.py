"""Asking a fit changes nothing: not the fit, not the caller's arrays, not later answers."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.display', 'attitude.error.axes', 'attitude.stereonet']

FIELDS = ('array', 'arr', 'mean', 'axes', 'V', 'singular_values', 'sigma', 'normal', 'strike', 'dip_dr', 'offset', 'weights')


def queries(mod, symbolic):
    A = mod('attitude.error.axes')
    S = mod('attitude.stereonet')
    q = [
        ('strike and dip', lambda f: f.strike_dip()),
        ('dip direction', lambda f: f.dip_direction()),
        ('strike, dip and rake', lambda f: f.strike_dip_rake()),
        ('angular errors', lambda f: f.angular_errors()),
        ('angular errors in radians', lambda f: f.angular_errors(degrees=False)),
        ('error axes', lambda f: f.hyperbolic_axes),
        ('eigenvalues', lambda f: f.eigenvalues),
        ('covariance', lambda f: f.covariance_matrix),
        ('sampling covariance', lambda f: getattr(f, '_covariance_matrix', lambda k: f.covariance_matrix)('sampling')),
        ('explained variance', lambda f: f.explained_variance),
        ('principal axes', lambda f: f.principal_axes),
        ('aligned coordinates', lambda f: f.rotated()),
        ('residuals', lambda f: f.residuals()),
        ('center', lambda f: f.center),
        ('centered coordinates', lambda f: f.centered_array),
        ('hyperbola', lambda f: f.as_hyperbola()),
        ('rotated hyperbola', lambda f: f.as_hyperbola(rotated=True)),
        ('noise axes', lambda f: A.noise_axes(f)),
        ('noise axes at 90%', lambda f: A.noise_axes(f, confidence_level=0.9)),
        ('noise axes, fixed normal', lambda f: A.noise_axes(f, variance_on_all_axes=False)),
        ('sampling axes', lambda f: A.sampling_axes(f)),
        ('eigenvalue axes', lambda f: A.eigenvalue_axes(f)),
        ('variance axes', lambda f: A.variance_axes(f)),
        ('axes of a kind', lambda f: A.hyperbolic_axes(f, type='noise', confidence_level=0.9)),
        ('sampling axes of a kind', lambda f: A.hyperbolic_axes(f, type='sampling')),
        ('francq axes', lambda f: A.francq_axes(f)),
        ('babamoradi axes', lambda f: A.babamoradi_axes(f)),
        ('upper girdle', lambda f: f.plane_errors(sheet='upper', n=12)),
        ('lower girdle', lambda f: f.plane_errors(sheet='lower', n=12)),
        ('nominal girdle', lambda f: f.plane_errors(sheet='nominal', n=12)),
        ('wide girdle', lambda f: f.plane_errors(sheet='upper', n=12, level=2)),
        ('map girdle', lambda f: f.plane_errors(sheet='upper', n=12, traditional_layout=False)),
        ('pole errors', lambda f: S.normal_errors(f.axes, f.covariance_matrix, n=12)),
        ('map pole errors', lambda f: S.normal_errors(f.axes, f.covariance_matrix, n=12, traditional_layout=False)),
        ('iterative girdle', lambda f: S.iterative_plane_errors(f.axes, f.covariance_matrix, n=12)),
        ('iterative pole errors', lambda f: S.iterative_normal_errors(f.axes, f.covariance_matrix, n=12)),
    ]
    import engine.npx as X
    import numpy
    N = X.NP if symbolic else numpy
    q += [
        ('conic', lambda f: f.as_conic(level=2)),
        ('sections', lambda f: N.array(mod('attitude.display.hyperbola').hyperbolic_errors(
            f.hyperbolic_axes, N.linspace(-3, 3, 7), axes=N.array([[0, 1, 0], [0, 0, 1]])))),
        ('regression axes', lambda f: A.regression_axes(f)),
        ('girdles in degrees', lambda f: table(f.error_coords(n=8, ellipse=False))),
        ('girdles in degrees at levels', lambda f: table(f.error_coords(n=8, levels=[1, 2], ellipse=False))),
        ('similarity', lambda f: mod('attitude.geom').fit_similarity(f, f)),
        ('singular vectors', lambda f: f.U),
    ]
    if not symbolic:
        q += [
            ('error ellipse', lambda f: f.error_ellipse()),
            ('girdle coordinates', lambda f: coords(f.error_coords(n=8))),
            ('girdle coordinates at levels', lambda f: coords(f.error_coords(n=8, levels=[1, 2]))),
            ('uid', lambda f: list(f.hash.encode())),
            ('representation', lambda f: list(repr(f).encode())),
            ('saved', lambda f: coords({k: v for k, v in f.to_mapping().items() if k not in ('uid', 'disabled')})),
        ]
    return q


def table(d):
    """numbers in nested mappings, as one list of positions"""
    out = []
    for k in sorted(d, key=str):
        out += table(d[k]) if isinstance(d[k], dict) else list(d[k])
    return out


def coords(d):
    out = []
    for k in sorted(d, key=str):
        v = d[k]
        if isinstance(v, dict):
            out += coords(v)
        else:
            import numpy as N
            out += list(N.ravel(N.array(v, dtype=float)))
    return out


def ask(ctx, q, f):
    """answer of a query; for degenerate data that is the exception it raises"""
    if ctx.symbolic:
        return q(f)
    try:
        return q(f)
    except Exception as e:
        return list(('%s: %s' % (type(e).__name__, e)).encode())


def flat(N, v):
    if isinstance(v, (tuple, list)):
        return N.array(list(v)) if len(v) else N.zeros(0)
    return v


def state(ctx, f):
    return [(k, getattr(f, k), ctx.snapshot(getattr(f, k))) for k in FIELDS if getattr(f, k, None) is not None]


def same_state(ctx, f, keep, after):
    for k, obj, snap in keep:
        ctx.unchanged('%s after %s' % (k, after), getattr(f, k), snap)
        ctx.unchanged('%s (object) after %s' % (k, after), obj, snap)


def same(ctx, label, a, b):
    """same answer; to the last digits when run (numpy's vector loops round differently depending on where arrays lie)"""
    if ctx.symbolic:
        ctx.eq(label, a, b)
    else:
        import numpy as N
        a, b = N.asarray(a, dtype=float), N.asarray(b, dtype=float)
        ok = N.abs(b[N.isfinite(b)])
        tol = 1e-11 * (1 + (ok.max() if ok.size else 0))
        ctx.true(label, a.shape == b.shape and N.allclose(a, b, rtol=1e-11, atol=tol, equal_nan=True))


def history(ctx, part):
    """every query, forwards and backwards, on one fit: each answer is that of a fresh fit of a package with no history"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3 if ctx.symbolic else 4)
    if not ctx.symbolic:
        ctx.assume(len(arr) >= 4)
    user = ctx.snapshot(arr)
    new = ctx.fresh()
    # what is asked most, with every part
    core = ('strike and dip', 'angular errors', 'error axes')
    pick = (lambda q: [x for i, x in enumerate(q) if i % 5 == part or x[0] in core])
    want = []
    for name, q in pick(queries(new, ctx.symbolic)):
        want.append(ctx.snapshot(flat(N, ask(ctx, q, new('attitude.orientation.pca').PCAOrientation(ctx.snapshot(arr))))))
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    if ctx.symbolic:
        ctx.assume(f.singular_values[2] > 1e-9 * f.singular_values[0])
    keep = state(ctx, f)
    qs = pick(queries(ctx.mod, ctx.symbolic))
    for i in range(len(qs)):
        same(ctx, qs[i][0], flat(N, ask(ctx, qs[i][1], f)), want[i])
        same_state(ctx, f, keep, qs[i][0])
    for i in reversed(range(len(qs))):
        same(ctx, qs[i][0] + ' again', flat(N, ask(ctx, qs[i][1], f)), want[i])
    same_state(ctx, f, keep, 'all')
    ctx.unchanged('coordinates given by the user', arr, user)
    if not ctx.symbolic:
        ctx.true('same settings', f.member_of is None and f.disabled is False)
        # another fit, after all that, in the same process
        g = f.__class__(arr + 1)
        h = new('attitude.orientation.pca').PCAOrientation(ctx.snapshot(arr + 1))
        for (name, q), (_, r) in zip(qs, pick(queries(new, False))):
            same(ctx, name + ' of another fit', flat(N, ask(ctx, q, g)), flat(N, ask(ctx, r, h)))


def results_are_private(ctx):
    """writing into what a query returned does not reach the fit"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    what = ctx.choose('query', ['rotated', 'residuals', 'covariance', 'error axes', 'eigenvalues', 'hyperbola', 'mapping'])
    keep = state(ctx, f)
    if what == 'rotated':
        r = f.rotated()
    elif what == 'residuals':
        r = f.residuals()
    elif what == 'covariance':
        r = f.covariance_matrix
    elif what == 'error axes':
        r = f.hyperbolic_axes
    elif what == 'eigenvalues':
        r = f.eigenvalues
    elif what == 'hyperbola':
        r = f.as_hyperbola()
    else:
        if ctx.symbolic:
            return
        m = f.to_mapping()
        for k, v in m.items():
            if isinstance(v, list):
                v.clear()
        return same_state(ctx, f, keep, 'overwriting the saved form')
    again = dict(rotated=lambda: f.rotated(), residuals=lambda: f.residuals(), covariance=lambda: f.covariance_matrix,
                 eigenvalues=lambda: f.eigenvalues, hyperbola=lambda: f.as_hyperbola()).get(what, lambda: f.hyperbolic_axes)
    first = ctx.snapshot(r)
    r *= 2
    r += 1
    same_state(ctx, f, keep, 'overwriting ' + what)
    same(ctx, 'same answer after overwriting', again(), first)


def related(ctx):
    """fits of related points in the same process: each answer is its own"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False, sizes=(4, 6, 12, 30)), min_len=4)
    ctx.assume(4 <= len(arr) < 100)
    how = ctx.choose('how', ['more at the center', 'reordered', 'moved', 'other unit', 'mirrored', 'turned', 'repeated'])
    if ctx.choose('exact', [True, False]):
        # symmetric about the origin in exact numbers
        q = N.round(arr - arr.mean(axis=0))
        arr = N.vstack((q, -q))
        ctx.assume(len(N.unique(N.abs(q), axis=0)) > 2 and N.linalg.matrix_rank(q) == 3)
    c = arr.mean(axis=0)
    other = {'more at the center': lambda: N.vstack((arr, [c] * 5)), 'reordered': lambda: arr[::-1].copy(),
             'moved': lambda: arr + N.array([8, 4, 2]), 'other unit': lambda: arr * 1024,
             'mirrored': lambda: arr * N.array([1, 1, -1]), 'turned': lambda: N.array(arr[:, [1, 2, 0]], order='C'),
             'repeated': lambda: N.vstack((arr, arr))}[how]()
    new = ctx.fresh()
    P, Q = ctx.mod('attitude.orientation.pca').PCAOrientation, new('attitude.orientation.pca').PCAOrientation
    f, g, h = P(arr), P(other), Q(other.copy())
    qs, rs = queries(ctx.mod, False), queries(new, False)
    want = [ctx.snapshot(flat(N, ask(ctx, r, h))) for _, r in rs]
    first = [ctx.snapshot(flat(N, ask(ctx, q, f))) for _, q in qs]
    for i, (name, q) in enumerate(qs):
        same(ctx, name + ' of a related fit', flat(N, ask(ctx, q, g)), want[i])
    for i, (name, q) in enumerate(qs):
        same(ctx, name + ' of the first fit again', flat(N, ask(ctx, q, f)), first[i])


def inputs(ctx):
    """error surfaces of any axes and covariance do not touch them"""
    N = ctx.np
    S = ctx.mod('attitude.stereonet')
    V = ctx.orthogonal('axes', gens.rotation())
    d = ctx.vec('d', 3, gens.positive(3, 0.05, 20), pos=True)
    C = N.diag(d)
    a, b = ctx.snapshot(V), ctx.snapshot(C)
    fn = ctx.choose('function', ['plane_errors', 'normal_errors', 'iterative_plane_errors', 'iterative_normal_errors',
                                 'error_coords', 'hyperbolic', 'scale', 'angular'])
    if fn == 'hyperbolic':
        x = N.linspace(-5, 5, 9)
        m = N.array([1.0, 2.0])
        keep = ctx.snapshot(x), ctx.snapshot(m), ctx.snapshot(d)
        ctx.mod('attitude.display.hyperbola').hyperbolic_errors(d, x, axes=V[:2], means=m)
        ctx.unchanged('positions', x, keep[0])
        ctx.unchanged('means', m, keep[1])
        ctx.unchanged('axis lengths', d, keep[2])
    elif fn == 'scale':
        k = ctx.snapshot(d)
        S.scale_errors(d)
        ctx.unchanged('covariance axes', d, k)
    elif fn == 'angular':
        k = ctx.snapshot(d)
        ctx.mod('attitude.error.axes').angular_errors(d)
        E = ctx.mod('attitude.error')
        E.from_normal_errors(E.to_normal_errors(d))
        ctx.unchanged('axis lengths', d, k)
    elif fn == 'error_coords':
        lv = [3, 1, 2]
        if ctx.symbolic:
            S.error_coords(V, C, n=12, ellipse=False)
        else:
            S.error_coords(V, C, n=12)
        S.error_coords(V, C, n=6, levels=lv, ellipse=False)
        ctx.true('levels', lv == [3, 1, 2])
    else:
        getattr(S, fn)(V, C, n=12)
    ctx.unchanged('axes', V, a)
    ctx.unchanged('covariance', C, b)


def comparisons(ctx):
    """comparing two fits changes neither"""
    N = ctx.np
    G = ctx.mod('attitude.geom')
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(ctx.data('a', gens.planar('a', degenerate=False), min_len=3))
    b = P(ctx.data('b', gens.planar('b', degenerate=False), min_len=3))
    ka, kb = state(ctx, a), state(ctx, b)
    x = G.fit_angle(a, b)
    G.aligned_covariance(a)
    if not ctx.symbolic:
        y = G.fit_similarity(a, b)
        G.fit_similarity(b, a)
        same(ctx, 'similarity again', G.fit_similarity(a, b), y)
    same_state(ctx, a, ka, 'comparison')
    same_state(ctx, b, kb, 'comparison')
    same(ctx, 'angle again', G.fit_angle(a, b), x)


def look(ctx, patch):
    if ctx.symbolic:
        return dict(patch.kw)
    return [getattr(patch, 'get_' + k)() for k in ('facecolor', 'edgecolor', 'alpha', 'zorder', 'linewidth', 'linestyle', 'label')]


def drawing(ctx):
    """drawing a fit, twice: the same both times, and nothing else changes"""
    from engine import draw
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    user = ctx.snapshot(arr)
    mod = lambda name: draw.load(ctx, 'attitude.' + name)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    s = f.singular_values
    ctx.assume(s[2] > (0 if ctx.symbolic else 1e-7 * s[0]))
    keep = state(ctx, f)
    what = ctx.choose('plot', ['girdle', 'pole', 'polar', 'map girdle', 'map pole', 'bands'])

    # error axes of another kind are put on a map at will
    kw = ctx.choose('options', [{}, dict(type='sampling')]) if what.startswith('map') else {}

    def asked():
        return N.array(list(f.hyperbolic_axes) + list(f.angular_errors()) + list(f.strike_dip()))

    def once(**style):
        ax = draw.Axes()
        if what in ('girdle', 'pole'):
            getattr(mod('display.stereonet'), what + '_error')(ax, f, **style)
        elif what == 'polar':
            mod('display.polar').pole_error(ax, f, **style)
        elif what == 'bands':
            e = mod('display.hyperbola').HyperbolicErrors(f.hyperbolic_axes, N.linspace(-5, 5, 11), axes=N.array([[0, 1, 0], [0, 0, 1]]))
            e.plot(ax, **style)
            return ax.patches[0].get_xy(), look(ctx, ax.patches[0])
        else:
            C = mod('display.cartopy')
            g = list((C.cartopy_girdle if what == 'map girdle' else C.cartopy_normal)(f, **kw).geometries())[0]
            return N.array(list(N.array(g.exterior.coords)) + [i for r in g.interiors for i in N.array(r.coords)]), None
        return ax.patches[0].get_path().vertices, look(ctx, ax.patches[0])
    answers = ctx.snapshot(asked())
    first, style = once()
    first = ctx.snapshot(N.array(first))
    same_state(ctx, f, keep, 'drawing')
    once(facecolor='red', edgecolor='blue', alpha=0.3, zorder=17, linewidth=5)
    again, restyle = once()
    same(ctx, 'drawn again', N.array(again), first)
    ctx.true('in the same style', style == restyle)
    same(ctx, 'same answers', asked(), answers)
    same_state(ctx, f, keep, 'drawing again')
    ctx.unchanged('coordinates given by the user', arr, user)


def plotting(ctx):
    """plots leave the fit as it was, and a second plot shows the same"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import mplstereonet  # noqa: F401
    import contextlib
    import io
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False, sizes=(4, 6, 12, 30)), min_len=4)
    ctx.assume(len(arr) < 100)
    user = arr.copy()
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    f = P(arr)
    keep, uid, rep = state(ctx, f), f.hash, repr(f)
    D = ctx.mod('attitude.display')
    what = ctx.choose('plot', ['aligned', 'girdle', 'pole', 'strike_dip', 'trend_plunge', 'normal', 'comparison',
                               'polar', 'cartopy', 'interactive', 'bands', 'ellipse'])
    fig = plt.figure()
    before = dict(matplotlib.rcParams)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for i in range(2):
                draw(what, D, ctx, fig, f, N, plt)
    finally:
        plt.close('all')
    same_state(ctx, f, keep, what)
    ctx.true('uid', f.hash == uid)
    ctx.true('representation', repr(f) == rep)
    ctx.unchanged('coordinates given by the user', arr, user)
    ctx.true('matplotlib settings', dict(matplotlib.rcParams) == before)


def draw(what, D, ctx, fig, f, N, plt):
    if what == 'aligned':
        D.plot_aligned(f)
    elif what == 'comparison':
        D.error_comparison(f)
    elif what == 'girdle':
        D.girdle_error(fig.add_subplot(111, projection='stereonet'), f)
    elif what == 'pole':
        D.pole_error(fig.add_subplot(111, projection='stereonet'), f)
    elif what == 'strike_dip':
        D.strike_dip(f, ax=fig.add_subplot(111), levels=[1, 2], alpha=[0.3, 0.2])
    elif what == 'trend_plunge':
        for lv in ([1], [1, 2]):
            f.error_ellipse(vector=True, level=lv[-1])
    elif what == 'normal':
        ctx.mod('attitude.display.plot')
        f.error_ellipse(vector=True)
    elif what == 'polar':
        ctx.mod('attitude.display.polar').pole_error(fig.add_subplot(111, projection='polar'), f)
    elif what == 'cartopy':
        C = ctx.mod('attitude.display.cartopy')
        C.cartopy_girdle(f)
        C.cartopy_normal(f)
    elif what == 'interactive':
        D.plot_interactive([f])
    elif what == 'bands':
        x = N.linspace(-5, 5, 11)
        for ax in ctx.mod('attitude.geom').axis_aligned_transforms()[1:]:
            e = D.HyperbolicErrors(f.hyperbolic_axes, x, transformation=f.axes, axes=ax)
            e.plot(fig.add_subplot(111))
    elif what == 'ellipse':
        D.error_ellipse(f)


SCENARIOS = [Scenario('any history of queries (%d)' % i, (lambda ctx, i=i: history(ctx, i)), concrete=20)
             for i in range(5)]
SCENARIOS += [
    Scenario('results are private', results_are_private),
    Scenario('related fits', related, deductive=False, concrete=40),
    Scenario('inputs', inputs),
    Scenario('comparisons', comparisons),
    Scenario('drawing', drawing, concrete=30, max_paths=120),
    Scenario('plots', plotting, deductive=False, concrete=12, concrete_seconds=40),
]
