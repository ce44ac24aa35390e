"""Derived angles: dip line, rake, angle between vectors and between fits."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.geom']


def dip_line(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    d, n = fit.dip_dr, fit.normal
    ctx.eq('dip line is a unit vector', N.dot(d, d), 1)
    ctx.eq('dip line lies in the plane', N.dot(d, n), 0)
    ctx.le('dip line points up-dip', 0, d[2])
    # steepest line of the plane: its vertical component is sin(dip)
    ctx.eq('dip line is the steepest line', d[2] ** 2, 1 - n[2] ** 2)
    ctx.eq('dip line opposes the horizontal part of the normal', d[0] * n[1] - d[1] * n[0], 0)
    ctx.le('... on the up-dip side', d[0] * n[0] + d[1] * n[1], 0)


def rake(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    rk = fit.rake()
    ctx.le('rake >= 0', 0, rk)
    ctx.le('rake <= 180', rk, 180)
    ctx.eq('rake is the angle between the dip line and the first axis', N.cos(N.radians(rk)),
           N.dot(fit.dip_dr, fit.axes[0]))
    s, d = fit.strike_dip()
    t = fit.strike_dip_rake()
    ctx.eq('combined query agrees', N.array([t[0], t[1], t[2]]), N.array([s, d, rk]))


def angle(ctx):
    N = ctx.np
    f = ctx.mod('attitude.geom.util').angle
    a = ctx.vec('a', 3, gens.normal(3))
    k = ctx.choose('b', ['generic', 'scaled', 'opposite'])
    if k == 'generic':
        b = ctx.vec('b', 3, gens.normal(3))
    else:
        m = ctx.real('m', gens.uniform(0.1, 10), pos=True)
        b = a * m if k == 'scaled' else -a * m
    ctx.assume(N.dot(a, a) > 0)
    ctx.assume(N.dot(b, b) > 0)
    t = f(a, b)
    ctx.le('angle >= 0', 0, t)
    ctx.le('angle <= pi', t, N.pi)
    c = N.dot(a, b) / N.linalg.norm(a) / N.linalg.norm(b)
    ctx.eq('cosine', N.cos(t), c)
    ctx.eq('cosine option', f(a, b, cos=True), c)
    ctx.eq('symmetric', f(b, a), t)
    if k == 'scaled':
        ctx.eq('parallel vectors', t, 0, tol=1e-6)
    if k == 'opposite':
        ctx.eq('opposite vectors', t, N.pi, tol=1e-6)


def fit_angle(ctx):
    N = ctx.np
    a = ctx.data('a', gens.planar('a'), min_len=3)
    b = ctx.data('b', gens.planar('b'), min_len=3)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    g = ctx.mod('attitude.geom').fit_angle
    fa, fb = P(a), P(b)
    t = g(fa, fb)
    ctx.le('angle >= 0', 0, t)
    ctx.le('angle <= 180', t, 180)
    ctx.eq('angle between the normals', N.cos(N.radians(t)), N.dot(fa.normal, fb.normal))
    ctx.eq('symmetric', g(fb, fa), t)
    ctx.eq('in radians', N.degrees(g(fa, fb, degrees=False)), t)


def fit_self_angle(ctx):
    a = ctx.data('a', gens.planar('a'), min_len=3)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    fa = P(a)
    ctx.eq('a fit is parallel to itself', ctx.mod('attitude.geom').fit_angle(fa, P(a)), 0, tol=1e-5)


SCENARIOS = [
    Scenario('dip line', dip_line, concrete=120),
    Scenario('rake', rake, concrete=120),
    Scenario('angle', angle, concrete=120),
    Scenario('angle between fits', fit_angle),
    Scenario('angle to itself', fit_self_angle),
]
