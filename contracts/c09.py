"""Conics: membership, translation, transformation, centre, pole and polar, dual."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.geom.conics']


def sym_matrix(k):
    def gen(s, r):
        while True:
            m = r.normal(size=(k, k)) * 2
            j = int(r.integers(5))
            if j < 2:
                m = r.integers(-3, 4, size=(k, k))
                m = m.astype(float) if j else m
            m = m + m.T
            if abs(_det(m)) > 0.3 and abs(_det(m[:-1, :-1])) > 0.3:
                return m
    return gens.scalable(gen)


def _det(m):
    import numpy
    return numpy.linalg.det(m)


def conic(ctx, k, name='Q'):
    """arbitrary quadric (k = 4) or conic (k = 3): symmetric matrix"""
    m = ctx.mat(name, (k, k), sym_matrix(k))
    for i in range(k):
        for j in range(i):
            m[i, j] = m[j, i]
    if not ctx.symbolic:
        # far enough from degenerate for the tolerances
        q = m / abs(m).max()
        ctx.assume(abs(_det(q)) > 1e-3 and abs(_det(q[:-1, :-1])) > 1e-3)
    return ctx.mod('attitude.geom.conics').conic(m), m


def aug(N, p):
    return N.append(p, [1])


def value(N, Q, p):
    v = aug(N, p)
    return N.dot(N.dot(v, N.array(Q)), v)


def moved(ctx):
    N = ctx.np
    k = ctx.choose('dim', [3, 4])
    C, m = conic(ctx, k)
    keep = ctx.snapshot(m)
    p = ctx.vec('p', k - 1, gens.normal(k - 1, 2.0))
    t = ctx.vec('t', k - 1, gens.normal(k - 1, 2.0))
    D = C.translate(t)
    ctx.eq('a translated point is where the point was', value(N, D, p + t), value(N, m, p))
    ctx.eq('translating back', N.array(D.translate(-t)), N.array(C))
    ctx.eq('solve evaluates the form', C.solve(aug(N, p)), value(N, m, p))
    T = ctx.mat('T', (k, k), gens.scalable(lambda s, r: r.normal(size=(k, k))))
    v = aug(N, p)
    ctx.eq('transform pulls the form back', N.dot(N.dot(v, N.array(C.transform(T))), v),
           N.dot(N.dot(N.dot(T, v), m), N.dot(T, v)))
    ctx.eq('conic is not modified', N.array(C), keep)


def center(ctx):
    N = ctx.np
    k = ctx.choose('dim', [3, 4])
    C, m = conic(ctx, k)
    t = ctx.vec('t', k - 1, gens.normal(k - 1, 2.0))
    c = C.center()
    ctx.eq('the form is stationary at the center', N.dot(m[:-1], aug(N, c)), N.zeros(k - 1), tol=1e-6)
    p = ctx.vec('p', k - 1, gens.normal(k - 1, 2.0))
    ctx.eq('the conic is symmetric about its center', value(N, m, 2 * c - p), value(N, m, p), tol=1e-5)
    ctx.eq('the center moves with the conic', C.translate(t).center(), c + t, tol=1e-5)


def ellipsoid(ctx, types=False):
    N = ctx.np
    k = ctx.choose('dim', [2, 3])
    a = ctx.vec('a', k, gens.positive(k, 0.2, 5), pos=True)
    p = ctx.vec('p', k, gens.normal(k, 2.0))
    t = ctx.vec('t', k, gens.normal(k, 2.0))
    Conic = ctx.mod('attitude.geom.conics').Conic
    if types:
        # lengths of any type
        how = ctx.choose('lengths', ['floats', 'integers', 'list', 'list of integers'])
        if 'integers' in how:
            a = N.ceil(a).astype(int)
        if 'list' in how:
            a = [i.item() for i in a]
    C = Conic.from_semiaxes(a).translate(t)
    f = sum(((p[i] - t[i]) / a[i]) ** 2 for i in range(k))
    if not ctx.symbolic:
        ctx.assume(abs(f - 1) > 1e-6)
    if C.contains(p):
        ctx.le('contained points are inside', f, 1)
    else:
        ctx.lt('other points are outside', 1, f)
    ctx.eq('center', C.center(), t)
    ctx.true('elliptical', bool(C.is_elliptical()))
    ctx.true('not hyperbolic', not C.is_hyperbolic())
    b = N.array([1 / x ** 2 for x in a])
    ctx.eq('axis parameters', N.array(Conic.from_axes(b)), N.array(Conic.from_semiaxes(a)))
    ctx.eq('squared semiaxes', Conic.from_semiaxes(a).semiaxes(), N.array([x * x for x in a]))


def on_shell(ctx):
    """points on the surface are recognised"""
    N = ctx.np
    a = ctx.vec('a', 3, gens.positive(3, 0.2, 5), pos=True)
    u = ctx.unit('u', gens.near_unit())
    t = ctx.vec('t', 3, gens.normal(3, 2.0))
    C = ctx.mod('attitude.geom.conics').Conic.from_semiaxes(a).translate(t)
    p = t + a * u
    ctx.true('on the shell', bool(C.contains(p, shell_only=True)))
    ctx.true('the center is not on the shell', not C.contains(t, shell_only=True))


def pole(ctx):
    N = ctx.np
    k = ctx.choose('dim', [3, 4])
    C, m = conic(ctx, k)
    p = ctx.vec('p', k - 1, gens.normal(k - 1, 2.0))
    pl = C.polar_plane(p)
    ctx.eq('the pole of the polar plane is the point', C.pole(pl), p, tol=1e-5)
    f = ctx.real('f', gens.uniform(0.2, 3), pos=True)
    ctx.eq('so is the pole of any multiple of the equation of the plane', C.pole(pl * f), p, tol=1e-5)
    ctx.eq('written with the other sign', C.pole(-pl), p, tol=1e-5)
    q = ctx.vec('q', k - 1, gens.normal(k - 1, 2.0))
    ctx.eq('polarity is symmetric', N.dot(N.array(pl), aug(N, q)), N.dot(N.array(C.polar_plane(q)), aug(N, p)))
    ctx.eq('a point on the conic lies on its polar plane', N.dot(N.array(pl), aug(N, p)), value(N, m, p))


def dual(ctx):
    N = ctx.np
    k = ctx.choose('dim', [3, 4])
    C, m = conic(ctx, k)
    D = C.dual()
    ctx.eq('dual is the inverse', N.dot(N.array(D), m), N.eye(k), tol=1e-6)
    p = ctx.vec('p', k - 1, gens.normal(k - 1, 2.0))
    pl = N.array(C.polar_plane(p))
    ctx.eq('planes tangent to the conic lie on the dual', N.dot(pl, N.dot(N.array(D), pl)), value(N, m, p), tol=1e-6)


def plane(ctx):
    N = ctx.np
    k = ctx.choose('dim', [2, 3])
    U = ctx.mod('attitude.geom.util')
    n = ctx.vec('n', k, gens.normal(k, 2.0))
    ctx.assume(N.dot(n, n) > 0)
    d = ctx.real('d', gens.uniform(-5, 5, special=(0.0,)))
    pl = U.plane(n, d)
    h = N.array(pl.hessian_normal())
    m = N.linalg.norm(n)
    ctx.eq('unit normal', N.dot(h[:-1], h[:-1]), 1)
    ctx.eq('same plane', h * m, N.append(n, [d]))
    ctx.eq('normal', N.array(pl.normal()), h[:-1])
    o = N.array(pl.offset())
    ctx.eq('offset lies on the plane', N.dot(n, o) + d, 0)
    ctx.eq('offset is along the normal', o * N.dot(n, n), -n * d)


def kind(ctx):
    """ellipse, hyperbola or parabola: one and only one, also if moved, for conics in the plane"""
    N = ctx.np
    M = ctx.mod('attitude.geom.conics')
    a = ctx.vec('a', 2, gens.positive(2, 0.2, 5), pos=True)
    which = ctx.choose('kind', ['ellipse', 'hyperbola', 'parabola'])
    sg = ctx.choose('sign', [1, -1])
    if which == 'parabola':
        A = N.array([[a[0], 0], [0, 0]]) if ctx.choose('axis', [0, 1]) else N.array([[0, 0], [0, a[0]]])
    else:
        c = ctx.real('th', gens.uniform(0, 6))
        R = N.array([[N.cos(c), N.sin(c)], [-N.sin(c), N.cos(c)]])
        d = N.array([a[0], a[1] if which == 'ellipse' else -a[1]])
        A = N.dot(R.T * d, R)
    b = ctx.vec('b', 2, gens.normal(2, 2.0))
    Q = N.zeros((3, 3))
    Q[:-1, :-1] = A
    Q[:-1, -1] = b
    Q[-1, :-1] = b
    Q[-1, -1] = -1
    C = M.conic(Q * sg)
    ctx.true('elliptical', bool(C.is_elliptical()) == (which == 'ellipse'))
    ctx.true('hyperbolic', bool(C.is_hyperbolic()) == (which == 'hyperbola'))
    ctx.true('parabolic', bool(C.is_parabolic()) == (which == 'parabola'))


def hyperboloid(ctx):
    """squared semiaxes of an ellipsoid or hyperboloid along the coordinate axes, whatever the signs"""
    N = ctx.np
    M = ctx.mod('attitude.geom.conics')
    k = ctx.choose('dim', [2, 3])
    a = ctx.vec('a', k, gens.positive(k, 0.2, 5), pos=True)
    s = [ctx.choose('sign %d' % i, [1, -1]) for i in range(k)]
    C = M.Conic.from_axes(N.array([s[i] / a[i] ** 2 for i in range(k)]))
    ctx.eq('squared semiaxes', C.semiaxes(), N.array([x * x for x in a]))
    D = C.dual()
    ctx.eq('of the dual', D.semiaxes(), N.array([1 / (x * x) for x in a]), tol=1e-6)


SCENARIOS = [
    Scenario('moved', moved),
    Scenario('center', center),
    Scenario('ellipsoid', ellipsoid),
    Scenario('lengths of any type', lambda ctx: ellipsoid(ctx, True), deductive=False, concrete=60),
    Scenario('shell', on_shell),
    Scenario('pole', pole),
    Scenario('dual', dual),
    Scenario('plane', plane),
    Scenario('kind', kind),
    Scenario('hyperboloid', hyperboloid),
]
