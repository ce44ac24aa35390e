"""A fit saved as scaled axes is recovered."""
import json
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca']


def recover(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(arr)
    s = a.singular_values
    ctx.assume(s[2] > (0 if ctx.symbolic else 1e-7 * s[0]))
    saved = a.principal_axes
    keep = ctx.snapshot(saved)
    # the axes as they are, or read back from text
    given = saved if ctx.symbolic or ctx.choose('saved', ['array', 'text']) == 'array' else json.loads(json.dumps(saved.tolist()))
    b = P(arr, axes=given)
    u, v = ctx.mag(s, off=[arr]), ctx.mag(s, off=[arr], power=2)
    ctx.eq('axes', b.axes, a.axes)
    ctx.eq('singular values', b.singular_values, a.singular_values, scale=u)
    ctx.eq('normal', b.normal, a.normal)
    ctx.eq('center', b.center, a.center, scale=ctx.mag(arr))
    ctx.eq('aligned coordinates', b.rotated(), a.rotated(), scale=u)
    ctx.eq('residuals', b.residuals(), a.residuals(), scale=u)
    ctx.eq('eigenvalues', b.eigenvalues, a.eigenvalues, scale=v)
    ctx.eq('lazily evaluated loadings', b.U, a.U, tol=1e-6)
    ctx.unchanged('saved axes are not modified', saved, keep)
    ctx.true('as given', given is saved or given == saved.tolist())
    # saving again gives the same axes
    ctx.eq('second generation', b.principal_axes, saved, scale=u)


def recover_angles(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    a = P(arr)
    s = a.singular_values
    ctx.assume(s[2] > (0 if ctx.symbolic else 1e-7 * s[0]))
    b = P(arr, axes=a.principal_axes)
    if not ctx.symbolic:
        ctx.assume(1e-6 < abs(a.normal[2]) < 1 - 1e-9)
    x, y = a.strike_dip_rake(), b.strike_dip_rake()
    sx, sy = N.radians(x[0]), N.radians(y[0])
    ctx.eq('strike', N.array([N.cos(sx), N.sin(sx)]), N.array([N.cos(sy), N.sin(sy)]))
    ctx.eq('dip', y[1], x[1], tol=1e-6)
    ctx.eq('rake', N.cos(N.radians(y[2])), N.cos(N.radians(x[2])))
    ctx.eq('angular errors', N.array(b.angular_errors()), N.array(a.angular_errors()), tol=1e-6)
    ctx.eq('hyperbolic axes', b.hyperbolic_axes, a.hyperbolic_axes, scale=ctx.mag(a.hyperbolic_axes, s ** 2 / a.n))


SCENARIOS = [
    Scenario('recover', recover),
    Scenario('recover angles', recover_angles),
]
