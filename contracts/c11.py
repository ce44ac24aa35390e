"""Principal axes of ellipsoids and the angle they subtend."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.geom.conics']


def rot2(s, r):
    import numpy
    t = r.uniform(0, 6.28)
    c, q = numpy.cos(t), numpy.sin(t)
    return numpy.array([[c, q], [-q, c]]) * r.choice([-1.0, 1.0], size=(2, 1))


def ascending(k):
    def gen(s, r):
        import numpy
        v = numpy.exp(r.uniform(-1, 2, size=k))
        return numpy.sort(v)
    return gens.scalable(gen)


def setup(ctx, k):
    N = ctx.np
    a = ctx.vec('a', k, ascending(k), pos=True)
    for i in range(k - 1):
        ctx.assume(a[i] < a[i + 1])
    R = ctx.orthogonal('R', gens.rotation() if k == 3 else rot2, k)
    t = ctx.vec('t', k, gens.normal(k, 3.0))
    M = ctx.mod('attitude.geom.conics')
    T = ctx.mod('attitude.geom.util').augment_tensor(R)
    C = M.Conic.from_semiaxes(a).transform(T).translate(t)
    ctx.known_svd(N.array(C)[:-1, :-1], N.array([1 / x ** 2 for x in a]), R)
    return N, a, R, t, C


def axes(ctx):
    k = ctx.choose('dim', [2, 3])
    N, a, R, t, C = setup(ctx, k)
    ax = N.array(C.major_axes())
    ctx.shape('one axis per dimension', ax, (k, k))
    S = (R.T / a ** 2) @ R
    for i in range(k):
        ctx.eq('axis %d ends on the ellipsoid' % i, N.dot(ax[i], N.dot(S, ax[i])), 1, tol=1e-6)
    G = N.dot(ax, ax.T)
    ctx.eq('axes are orthogonal and have the semiaxis lengths', G, N.diag(a ** 2), tol=1e-6)
    ctx.eq('axes are principal directions', N.dot(N.dot(ax, S), ax.T), N.eye(k), tol=1e-6)


def scaled(ctx):
    """the same surface written with a different overall factor has the same axes"""
    k = ctx.choose('dim', [2, 3])
    N, a, R, t, C = setup(ctx, k)
    m = ctx.real('m', gens.uniform(0.1, 8), pos=True)
    sign = ctx.choose('sign', [1, -1])
    D = ctx.mod('attitude.geom.conics').conic(N.array(C) * m * sign)
    ctx.known_svd(N.array(D)[:-1, :-1], N.array([m / x ** 2 for x in a]), R, sign)
    ax = N.array(D.major_axes())
    ctx.eq('axes do not depend on the scaling of the equation', N.dot(ax, ax.T), N.diag(a ** 2), tol=1e-6)


def subtended(ctx):
    """ellipsoid offset along one of its axes: exact half angles of the tangent cone"""
    N = ctx.np
    M = ctx.mod('attitude.geom.conics')
    b = ctx.vec('b', 2, ascending(2), pos=True)          # semiaxes across the line of sight
    ctx.assume(b[0] < b[1])
    c = ctx.real('c', gens.uniform(0.1, 3), pos=True)    # semiaxis along the line of sight
    extra = ctx.real('extra', gens.uniform(0.1, 5), pos=True)
    D = c + extra                                        # distance to the center, viewpoint outside
    i = ctx.choose('axis', [0, 1, 2])
    sg = ctx.choose('side', [1, -1])
    a = [b[0], b[1]]
    a.insert(i, c)
    t = N.zeros(3)
    t[i] = D * sg
    C = M.Conic.from_semiaxes(N.array(a)).translate(t)
    if ctx.symbolic:
        # cone of tangent lines, along the axes
        K, k = cone(N, N.array(C)), (D / c) ** 2 - 1
        across = [j for j in range(3) if j != i]
        ctx.known_eig(K, N.array([-1 / c ** 2, k / b[1] ** 2, k / b[0] ** 2]),
                      N.eye(3)[[i, across[1], across[0]]])
    ang = C.angle_subtended()
    tan = C.angle_subtended(tangent=True)
    ctx.le('sorted', ang[1], ang[0])
    for j in range(2):
        e = b[1 - j]
        # tangent from the viewpoint to the ellipse with semiaxes e (across) and c (along)
        ctx.eq('half angle %d' % j, tan[j] ** 2 * (D * D - c * c), e ** 2, tol=1e-6)
        ctx.eq('angle %d' % j, N.tan(ang[j]), tan[j], tol=1e-6)


def cone(N, Q):
    """form of the cone of lines through the origin tangent to the quadric"""
    b = Q[:-1, -1]
    return Q[-1, -1] * Q[:-1, :-1] - N.outer(b, b)


def oblique(ctx):
    """any ellipsoid, from any viewpoint outside it.  Parametrised by its tangent cone (axis R[0], squared
    slopes w0/wj along R[j]) and its polar plane; every ellipsoid seen from outside arises this way"""
    N = ctx.np
    M = ctx.mod('attitude.geom.conics')
    k = ctx.choose('dim', [3, 2])
    w0 = ctx.real('w0', gens.uniform(0.1, 3), pos=True)
    w = ctx.vec('w', k - 1, ascending(k - 1), pos=True)
    for i in range(k - 2):
        ctx.assume(w[i] < w[i + 1])
    R = ctx.orthogonal('R', gens.rotation() if k == 3 else rot2, k)
    f = ctx.vec('f', k - 1, gens.normal(k - 1, 1.0, ints=False))
    e = ctx.real('e', gens.uniform(0.05, 3), pos=True)
    c = ctx.real('c', gens.uniform(0.1, 3), pos=True)
    v = ctx.vec('v', k, gens.normal(k, 2.0))
    if not ctx.symbolic:
        # far enough from flat and needle-shaped for the tolerances
        ctx.assume(0.01 < w.min() and w.max() < 100 and abs(v).max() < 100 and abs(f).max() < 100)
    b0 = N.sqrt(w0 * (1 + sum(f[i] ** 2 / w[i] for i in range(k - 1)) + e))
    b = R[0] * b0
    for i in range(k - 1):
        b = b + R[i + 1] * f[i]
    lam = N.array([-w0] + [w[i] for i in range(k - 1)])
    K = N.dot(R.T * lam, R)
    A = (K + N.outer(b, b)) / c
    Q = N.zeros((k + 1, k + 1))
    Q[:-1, :-1] = A
    Q[:-1, -1] = b
    Q[-1, :-1] = b
    Q[-1, -1] = c
    C = M.conic(Q).translate(v)
    keep = ctx.snapshot(N.array(C))
    if ctx.symbolic:
        ctx.known_eig(K, lam, R)
    tan = N.atleast_1d(C.angle_subtended(tangent=True, viewpoint=v))
    ang = N.atleast_1d(C.angle_subtended(viewpoint=v))
    ctx.shape('one angle per direction', ang, (k - 1,))
    for j in range(k - 1):
        ctx.eq('half angle %d' % j, tan[j] ** 2 * w[j], w0, tol=1e-5)
        ctx.le('acute %d' % j, 0, tan[j])
        ctx.eq('angle %d' % j, N.tan(ang[j]), tan[j], tol=1e-6)
        d = R[0] + R[j + 1] * tan[j]
        # the line of sight x = v + s d meets the ellipsoid in a double point
        ctx.eq('the line at the half angle %d touches the ellipsoid' % j, N.dot(b, d) ** 2,
               c * N.dot(d, N.dot(A, d)), tol=1e-5)
    ctx.eq('viewpoint at the origin', N.atleast_1d(M.conic(Q).angle_subtended(tangent=True)), tan, tol=1e-5)
    ctx.eq('the ellipsoid is not modified', N.array(C), keep)


def sphere(ctx):
    """sphere seen from the origin: sin(half angle) = radius / distance, in any direction"""
    N = ctx.np
    M = ctx.mod('attitude.geom.conics')
    r = ctx.real('r', gens.uniform(0.2, 2), pos=True)
    R = ctx.orthogonal('R', gens.rotation())
    u = R[0]
    extra = ctx.real('extra', gens.uniform(0.1, 5), pos=True)
    D = r + extra
    C = M.Conic.from_semiaxes(N.array([r, r, r])).translate(u * D)
    if ctx.symbolic:
        k = (D / r) ** 2 - 1
        ctx.known_eig(cone(N, N.array(C)), N.array([-1 / r ** 2, k / r ** 2, k / r ** 2]), R)
    ang = C.angle_subtended()
    for j in range(2):
        ctx.eq('half angle %d' % j, N.sin(ang[j]) * D, r, tol=1e-6)


SCENARIOS = [
    Scenario('major axes', axes),
    Scenario('scaled equation', scaled),
    Scenario('offset ellipsoid', subtended),
    Scenario('sphere', sphere),
    Scenario('any ellipsoid', oblique),
]
