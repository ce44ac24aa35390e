"""Strike and dip describe the fitted plane (right-hand rule)."""
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca']


def plane_normal(N, strike, dip):
    d, a = N.radians(dip), N.radians(strike + 90)
    return N.array([N.sin(a) * N.sin(d), N.cos(a) * N.sin(d), N.cos(d)])


def strike_dip(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(), min_len=3)
    fit = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    strike, dip = fit.strike_dip()
    ctx.le('strike >= 0', 0, strike)
    ctx.true('strike < 360', strike < 360)
    ctx.le('dip >= 0', 0, dip)
    ctx.le('dip <= 90', dip, 90)
    n = plane_normal(N, strike, dip)
    # vertical planes: both upward normals are legitimate
    if not ctx.symbolic and abs(fit.normal[2]) < 1e-9:
        n = n * N.sign(N.dot(n, fit.normal))
    ctx.eq('strike/dip plane has the fitted normal', n, fit.normal)
    d = fit.dip_direction()
    ctx.eq('dip direction is 90 degrees clockwise of strike', N.array([N.sin(N.radians(d[0])), N.cos(N.radians(d[0])), d[1]]),
           N.array([N.cos(N.radians(strike)), -N.sin(N.radians(strike)), dip]))


def cardinal(ctx):
    """planes that dip due north, east, south or west up to rounding: the ranges hold in floats as well"""
    N = ctx.np
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    for _ in range(20):
        x, y = r.normal(size=(2, int(r.integers(2, 15)))) * N.exp(r.normal(size=(2, 1)) * 2)
        # symmetric about the dip line
        u, v = N.concatenate((x, x)), N.concatenate((y, -y))
        slope = float(r.choice([-1, 1]) * N.exp(r.normal() * 2))
        east = bool(r.integers(2))
        a = N.column_stack((u, v, slope * u) if east else (v, u, slope * u))
        if r.integers(2):
            a = a + r.normal(size=3) * 100
        fit = P(a)
        strike, dip = fit.strike_dip()
        ctx.true('strike in [0, 360)', 0 <= strike < 360)
        ctx.true('dip in [0, 90]', 0 <= dip <= 90)
        want = (0 if slope < 0 else 180) if east else (270 if slope < 0 else 90)
        off = (strike - want + 180) % 360 - 180
        ctx.eq('strike', N.array(off), 0.0, tol=1e-6)
        ctx.eq('dip', dip, N.degrees(N.arctan(abs(slope))), tol=1e-6)


SCENARIOS = [
    Scenario('pca', strike_dip),
    Scenario('cardinal directions', cardinal, deductive=False, concrete=60),
]
