"""Coordinate systems and rotations."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.coordinates', 'attitude.coordinates.rotations']


def centering(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=1)
    keep = ctx.snapshot(arr)
    c = ctx.mod('attitude.coordinates').centered(arr)
    ctx.eq('zero mean', c.mean(axis=0) / (1 if ctx.symbolic else 1 + N.abs(arr).max()), N.zeros(3))
    ctx.eq('same shape of the cloud', c - arr, -(arr * 0 + arr.mean(axis=0)))
    ctx.eq('idempotent', ctx.mod('attitude.coordinates').centered(c), c)
    ctx.unchanged('coordinates are not modified', arr, keep)


def spherical(ctx):
    N = ctx.np
    M = ctx.mod('attitude.coordinates')
    c = ctx.vec('c', 3, gens.normal(3, 5.0))
    if ctx.choose('on the pole', [False, True]):
        c = N.array([0 * c[0], 0 * c[1], c[2]])
    ctx.assume(N.dot(c, c) > (0 if ctx.symbolic else 1e-12))
    pts = N.array([c]).T
    s = M.spherical(pts)
    r, th, ph = s[0]
    ctx.eq('radius', r * r, N.dot(c, c))
    ctx.le('radius >= 0', 0, r)
    ctx.le('polar angle >= 0', 0, th)
    ctx.le('polar angle <= pi', th, N.pi)
    ctx.eq('polar angle', r * N.cos(th), c[2])
    ctx.eq('azimuth', N.array([r * N.sin(th) * N.cos(ph), r * N.sin(th) * N.sin(ph)]), c[:2])
    x, y, z = M.cartesian(s.T)
    ctx.eq('and back', N.array([x[0], y[0], z[0]]), c)


def spherical_back(ctx):
    N = ctx.np
    M = ctx.mod('attitude.coordinates')
    r = ctx.real('r', gens.uniform(0.1, 10), pos=True)
    th = ctx.real('th', gens.uniform(0.01, 3.13))
    ph = ctx.real('ph', gens.uniform(-3.14, 3.14))
    for v, lo, hi in ((th, 0, N.pi), (ph, -N.pi, N.pi)):
        ctx.assume(v > lo)
        ctx.assume(v < hi)
    x, y, z = M.cartesian((r, th, ph))
    ctx.eq('length', x * x + y * y + z * z, r * r)
    ctx.eq('z', z, r * N.cos(th))
    ctx.eq('x, y', N.array([x, y]), N.array([r * N.sin(th) * N.cos(ph), r * N.sin(th) * N.sin(ph)]))
    # and back
    sp = M.spherical(N.array([[x], [y], [z]]))[0]
    ctx.eq('back: radius', sp[0], r)
    ctx.eq('back: polar angle', N.array([N.cos(sp[1]), N.sin(sp[1])]), N.array([N.cos(th), N.sin(th)]))
    ctx.eq('back: azimuth', N.array([N.cos(sp[2]), N.sin(sp[2])]), N.array([N.cos(ph), N.sin(ph)]))


def clouds(ctx):
    """many points at once"""
    N = ctx.np
    M = ctx.mod('attitude.coordinates')
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=1)
    if not ctx.symbolic:
        ctx.assume(N.abs(arr).max(axis=1).min() > 1e-9)
    keep = ctx.snapshot(arr)
    s = M.spherical(arr.T)
    ctx.shape('one row for each point', s, (arr.shape[0], 3))
    x, y, z = M.cartesian(s.T)
    for k, v in enumerate((x, y, z)):
        ctx.eq('round trip: ' + 'xyz'[k], v, arr[:, k])
    ctx.unchanged('coordinates are not modified', arr, keep)


def stereonet(ctx):
    N = ctx.np
    M = ctx.mod('attitude.coordinates.rotations')
    lon = ctx.real('lon', gens.uniform(-3.1, 3.1))
    lat = ctx.real('lat', gens.uniform(-1.5, 1.5))
    lat = {'pole': N.pi / 2, 'other pole': -N.pi / 2}.get(ctx.choose('at', [None, 'pole', 'other pole']), lat)
    ctx.assume(lat <= N.pi / 2)
    ctx.assume(lat >= -N.pi / 2)

    def v(a):
        return N.array([N.cos(a[1]) * N.cos(a[0]), N.cos(a[1]) * N.sin(a[0]), N.sin(a[1])])
    p = v((lon, lat))
    t, f = M.to_stereonet(lon, lat), M.from_stereonet(lon, lat)
    # rotations of the sphere, inverse to each other
    ctx.eq('to stereonet', v(t), N.array([-p[2], p[0], p[1]]))
    ctx.eq('from stereonet', v(f), N.array([p[1], p[2], -p[0]]))
    if not ctx.symbolic:
        ctx.assume(abs(v(t)[2]) < 1 - 1e-12 and abs(v(f)[2]) < 1 - 1e-12)
    ctx.eq('to and from', v(M.from_stereonet(*t)), p)
    ctx.eq('from and to', v(M.to_stereonet(*f)), p)
    c = M.cartesian(lon, lat)
    ctx.eq('unit vector', N.dot(c, c), 1)
    ctx.eq('cartesian', c, p)


def mapping(ctx):
    """rotation that maps one vector onto another"""
    N = ctx.np
    M = ctx.mod('attitude.coordinates.rotations')
    a = ctx.vec('a', 3, gens.normal(3, 2.0))
    ctx.assume(N.dot(a, a) > 0)
    kind = ctx.choose('b', ['generic', 'same direction', 'opposite'])
    if kind == 'generic':
        b = ctx.vec('b', 3, gens.normal(3, 2.0))
        x = N.cross(a, b)
        # closer than that, they count as (anti)parallel
        ctx.assume(N.linalg.norm(x) > 1e-8 * N.linalg.norm(a) * N.linalg.norm(b))
        if not ctx.symbolic:
            ctx.assume(N.dot(x, x) > 1e-8)
    else:
        k = ctx.real('k', gens.uniform(0.1, 5), pos=True)
        b = a * k if kind == 'same direction' else -a * k
    R = M.transform(a, b)
    la, lb = N.sqrt(N.dot(a, a)), N.sqrt(N.dot(b, b))
    tol = 1e-6
    ctx.eq('maps the direction of the first vector onto the second', N.dot(R, a) * lb, b * la, tol=tol)
    ctx.eq('orthogonal', N.dot(R, R.T), N.identity(3), tol=tol)
    # orthonormal and right-handed
    ctx.eq('proper', N.cross(R[0], R[1]), R[2], tol=tol)
    if kind == 'generic':
        ctx.eq('about their common normal', N.dot(R, x), x, tol=tol)


def planar_rotation(ctx):
    N = ctx.np
    t = ctx.real('t', gens.uniform(-7, 7))
    R = ctx.mod('attitude.geom.transform').rotate_2D(t)
    ctx.eq('rotates x', N.dot(R, N.array([1, 0])), N.array([N.cos(t), N.sin(t)]))
    ctx.eq('rotates y', N.dot(R, N.array([0, 1])), N.array([-N.sin(t), N.cos(t)]))
    Z = ctx.mod('attitude.orientation.base').rotation(t)
    ctx.eq('about z', Z[:2, :2], R)
    ctx.eq('about z', N.dot(Z, N.array([0, 0, 1])), N.array([0, 0, 1]))
    ctx.eq('about z', Z[2], N.array([0, 0, 1]))
    P = ctx.mod('attitude.geom').axis_aligned_transforms()
    v = ctx.vec('v', 3, gens.normal(3))
    ctx.eq('xy', N.dot(P[0], v), N.array([v[0], v[1]]))
    ctx.eq('xz', N.dot(P[1], v), N.array([v[0], v[2]]))
    ctx.eq('yz', N.dot(P[2], v), N.array([v[1], v[2]]))


def vectors(ctx):
    """building blocks"""
    N = ctx.np
    U = ctx.mod('attitude.geom.util')
    k = ctx.choose('dimension', [2, 3])
    a, b = ctx.vec('a', k, gens.normal(k, 2.0)), ctx.vec('b', k, gens.normal(k, 2.0))
    ctx.assume(N.dot(a, a) > 0)
    keep = ctx.snapshot(a)
    u = U.unit_vector(a)
    ctx.eq('unit vector has length one', N.dot(u, u), 1)
    ctx.eq('unit vector has the direction of the vector', u * N.sqrt(N.dot(a, a)), a)
    ctx.eq('vector', U.vector(*a), a)
    ctx.eq('homogeneous coordinates', U.augment(a)[:k], a)
    ctx.eq('homogeneous coordinates', U.augment(a)[k], 1)
    c = U.column(a)
    ctx.shape('column', c, (k, 1))
    ctx.eq('column', c[:, 0], a)
    T = N.array([a, b])
    for n in (None, 2, 3, 4, 6):
        if n is not None and n < k:
            continue
        A = U.augment_tensor(T) if n is None else U.augment_tensor(T, n)
        n = n or 3
        ctx.shape('augmented tensor', A, (n, n))
        ctx.eq('augmented tensor: block', A[:2, :k], T)
        ctx.eq('augmented tensor: identity elsewhere', A[2:, k:], N.identity(n)[2:, k:])
        ctx.eq('augmented tensor: identity elsewhere', A[2:, :k], N.identity(n)[2:, :k])
        ctx.eq('augmented tensor: identity elsewhere', A[:2, k:], N.identity(n)[:2, k:])
    ctx.eq('product', U.dot(T, N.array([a, b]).T, T), N.dot(N.dot(T, T.T), T))
    ctx.unchanged('vector is not modified', a, keep)


def whole(ctx):
    """whole numbers of any size are numbers too"""
    N = ctx.np
    U, M, R = ctx.mod('attitude.geom.util'), ctx.mod('attitude.coordinates'), ctx.mod('attitude.coordinates.rotations')
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    k, kind = ((100, N.int32), (40000, N.int32), (10, int), (4 * 10 ** 9, int))[int(r.integers(4))]
    a = r.integers(-k, k, size=(6, 3)).astype(kind)
    ctx.assume(min(N.abs(N.cross(a[0].astype(float), a[1].astype(float)))) > 1e-3 * k * k)
    f = a.astype(float)
    ctx.eq('unit vector', U.unit_vector(a[0]), U.unit_vector(f[0]))
    ctx.eq('centered', M.centered(a) / k, M.centered(f) / k)
    ctx.eq('spherical', M.spherical(a[:2].T) / [k, 1, 1], M.spherical(f[:2].T) / [k, 1, 1])
    ctx.eq('rotation', R.transform(a[0], f[1]), R.transform(f[0], f[1]))
    ctx.eq('homogeneous', U.augment(a[0]) / k, U.augment(f[0]) / k)
    ctx.eq('tensor', U.augment_tensor(a[:3]) / k, U.augment_tensor(f[:3]) / k)


SCENARIOS = [
    Scenario('centering', centering),
    Scenario('spherical', spherical),
    Scenario('cartesian', spherical_back),
    Scenario('clouds', clouds, concrete=40),
    Scenario('stereonet', stereonet),
    Scenario('mapping', mapping),
    Scenario('planar rotation', planar_rotation),
    Scenario('vectors', vectors),
    Scenario('whole numbers', whole, deductive=False, concrete=40),
]
