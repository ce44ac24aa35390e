import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h.py')).items() if k.isupper() and k != 'BUGS'})
PAR = 'attitude/display/parametric.py'
GEO = 'attitude/geom/__init__.py'
PLT = 'attitude/display/plot/__init__.py'
BUGS = [
dict(id='I01', property='C23', file=BASE, edits=[("    saxes = N.sqrt(s)*level ##", "    saxes = N.sqrt(N.clip(s,1e-6,None))*level ##")],
     needs='a covariance below 1e-6', breaks='size of the error ellipse', demo=PRE + '''
from attitude.orientation.base import ellipse
C = N.diag([4e-4, 1e-8])
e = ellipse((0., 0), C, level=2)
assert N.allclose((e @ N.linalg.inv(C) * e).sum(axis=1), 4)
'''),
dict(id='I02', property='C23', file=PCA, edits=[("        if dot(axes[2],vector(0,0,1)) < 0:\n", "        if dot(axes[2],vector(0,0,1)) < -1e-2:\n")],
     needs='a downward axis within half a degree of horizontal', breaks='the ellipsoid is about the downward normal', demo=PRE + '''
for k in range(60):
    n = N.array([N.cos(k), N.sin(k), 4e-3]); n /= N.linalg.norm(n)
    u = N.cross(n, [0, 0, 1]); u /= N.linalg.norm(u)
    a = r.normal(size=(30, 3))*(8, 5, .3) @ N.array([u, N.cross(n, u), n])
    f = P(a)
    if abs(f.normal[2]) > 9e-3: continue
    c = f.offset[2]*f.normal
    M = N.array(f.as_conic())
    assert N.append(c, 1) @ M @ N.append(c, 1) < 0
'''),
dict(id='I03', property='C23', file=PAR, edits=[("    if not opens_up:\n        vals = vals[::-1]\n", "    if not opens_up:\n        vals = vals[::-1]\n        axes = axes[::-1]\n")],
     needs='a hyperbola that opens sideways with different axes', breaks='equation of the hyperbola', demo=PRE + '''
from attitude.display.parametric import hyperbola
x, y = hyperbola(N.array([3., 1]), opens_up=False)
ok = N.isfinite(x)
v = (x[ok]/3)**2-y[ok]**2
assert N.allclose(v/(1+y[ok]**2), 1/(1+y[ok]**2))
'''),
dict(id='I04', property='C23', file=PCA, edits=[("        r = N.linalg.norm(data,axis=1)\n        plunge", "        if data[:,2].min() < 0:\n            # Keep the upper hemisphere\n            data *= -1\n        r = N.linalg.norm(data,axis=1)\n        plunge")],
     needs='an error ellipse that crosses the horizon', breaks='the ellipse is around the downward normal', demo=PRE + '''
n = 0
while n < 5:
    a = r.normal(size=(12, 3))*(3, 2, .2) @ rot()
    f = P(a)
    t = f.offset[2]; c = N.diagonal(f.covariance_matrix)
    if t*t < 1.1*c[2] or f.normal[2] > .3: continue
    tr, pl = f.error_ellipse()
    d = N.array([N.cos(pl)*N.sin(tr), N.cos(pl)*N.cos(tr), N.sin(pl)]).T
    n += 1
    assert (d @ f.normal > 0).all()
'''),
dict(id='I05', property='C23', file=BASE, edits=[("        return dot(r.T,self.covariance_matrix,r)\n", "        return dot(r,self.covariance_matrix,r.T)\n")],
     needs='a correlated covariance', breaks='variances along and across the azimuth', demo=PRE + '''
from attitude.orientation.base import BaseOrientation
o = BaseOrientation(); o.azimuth = .7
o.covariance_matrix = N.array([[2., .8, 0], [.8, 1, 0], [0, 0, 1]])
u = N.array([N.cos(.7), N.sin(.7), 0])
assert N.isclose(o.rotated_covariance[0, 0], u @ o.covariance_matrix @ u)
'''),
dict(id='I06', property='C18', file=REG, edits=[("        if len(coordinates[0]) > 3:\n", "        if len(coordinates) <= 3:\n")],
     needs='three points', breaks='coordinates of three points are transposed', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = N.array([[0., 0, 1], [4, 0, 2], [0, 5, 4]])
k = Regression(a).coefficients
assert N.allclose(k[:2], [.25, .6])
'''),
dict(id='I07', property='C18', file=REG, edits=[("        if self.n == self.k:\n", "        if self.df_e <= 1:\n")],
     needs='four points', breaks='covariance of the coefficients', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = N.array([[0., 0, 1], [4, 0, 2], [0, 5, 4], [4, 5, 9]])
f = Regression(a)
assert N.allclose(f.covariance_matrix, f.residuals @ f.residuals*N.linalg.inv(f.C.T @ f.C))
'''),
dict(id='I08', property='C19', file=LIN, edits=[("        self.azimuth = -N.arctan2(-values[1], -values[0])\n", "        if abs(values[0]) < 1e-6:\n            self.azimuth = N.pi/2\n        else:\n            self.azimuth = -N.arctan2(-values[1], -values[0])\n")],
     needs='a plane that dips due north', breaks='strike is reversed', demo=PRE + '''
from attitude.orientation.linear import LinearOrientation as L
x, y = N.meshgrid(N.arange(5.), N.arange(4.))
for k in (.5, -.5):
    a = N.column_stack((x.ravel(), y.ravel(), k*y.ravel()))
    s, d = L(a).strike_dip()
    S, D = N.radians(s), N.radians(d)
    n = N.array([N.cos(S)*N.sin(D), -N.sin(S)*N.sin(D), N.cos(D)])
    assert N.allclose(n*N.sqrt(1+k*k), [0, -k, 1], atol=1e-9) and d >= 0, (s, d)
'''),
dict(id='I09', property='C09', file=CON, edits=[("        ax = list(1/N.array(axes)**2)\n", "        ax = list(N.array(axes)**-2)\n")],
     needs='integer axes', breaks='raises an exception', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([2, 3, 1])
assert e.contains(N.array([1.9, 0, 0])) and not e.contains(N.array([2.1, 0, 0]))
'''),
dict(id='I10', property='C09', file=CON, edits=[("        T = N.identity(len(conic))\n", "        T = N.identity(len(conic), dtype=conic.dtype)\n")],
     needs='a conic with integer entries', breaks='the vector is truncated', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_axes([1, 4, 9]).translate(N.array([.5, 0, 0]))
assert N.allclose(N.array(e.center()), [.5, 0, 0])
'''),
dict(id='I11', property='C07', file=AX, edits=[("    return f.ppf(confidence_level, *df)\n", "    return f.ppf(round(confidence_level,3), *df)\n")],
     needs='a confidence level with more than three digits', breaks='the quantile is that of another level', demo=PRE + '''
from scipy.stats import f as F
from attitude.error.axes import noise_axes
a = P(cloud(30))
e = a.eigenvalues; z = F.ppf(.9996, 2, 28)
assert N.allclose(noise_axes(a, confidence_level=.9996)[2], e[2]+z*N.sqrt(4*e[2]*e[2]/28))
'''),
dict(id='I12', property='C12', file=HYP, edits=[("    yvals = A[1]*N.cosh(N.arcsinh(xvals/A[0]))\n\n", "    t = xvals/A[0]\n    # Asymptotes are close enough at a distance\n    yvals = A[1]*N.where(N.abs(t)>20,N.abs(t),N.cosh(N.arcsinh(t)))\n\n")],
     needs='positions more than twenty axis lengths from the center', breaks='the band is the asymptote', demo=PRE + '''
from attitude.display.hyperbola import hyperbolic_errors
x = N.linspace(-50, 50, 11)
ax = N.array([[1., 0, 0], [0, 0, 1]])
n, b, t = hyperbolic_errors(N.array([1., 1, 4]), x, axes=ax)
w = (t[:, ::-1]-n)[1]
assert N.allclose(w**2/4-x*x, 1, atol=1e-6)
'''),
dict(id='I13', property='C14', file=REC, edits=[("        errors = N.radians(angular_errors)/2\n", "        errors = N.radians(N.sort(angular_errors))/2\n")],
     needs='the larger error given first', breaks='errors are exchanged', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(20, 30, 40, 10, 5)
assert N.allclose(2*N.degrees(N.arctan2(p.hyperbolic_axes[2], p.hyperbolic_axes[:2])), [5, 10])
'''),
dict(id='I14', property='C15', file=GRP, edits=[("            val = next(x for x in orientations if x.hash == uid)\n            val.disabled = True\n", "            val = next(x for x in orientations if x.hash.startswith(uid))\n            val.disabled = True\n")],
     needs='a name that is the start of an identifier', breaks='a measurement that was not named is disabled', demo=PRE + '''
from attitude.orientation.grouped import disable_orientations
f = P(cloud())
try:
    disable_orientations([f], f.hash[:4])
except KeyError:
    pass
assert not f.disabled
'''),
dict(id='I15', property='C16', file=PCA, edits=[("        values.setdefault('center',self.center.tolist())\n", "        if not values.get('center'):\n            values['center'] = self.center.tolist()\n")],
     needs='an empty center given by the caller', breaks='the value given does not win', demo=PRE + '''
f = P(cloud())
assert f.to_mapping(center=None)['center'] is None
'''),
dict(id='I16', property='C16', file=BASE, edits=[("        return hash_array(self.principal_axes)\n", "        return hash_array(N.round(self.principal_axes,6))\n")],
     needs='data that differ by less than a millionth of the unit', breaks='different data have the same identifier', demo=PRE + '''
c = cloud()
a, b = P(c), P(c*(1+1e-10))
assert a.hash != b.hash
'''),
dict(id='I17', property='C21', file=DEM, edits=[("        x = mask.sum(axis)\n", "        x = mask.sum(axis, dtype=N.uint8)\n")],
     needs='a mask with 256 pixels in a row', breaks='the row is cut off', demo=PRE + '''
import sys, types
try:
    from attitude.helpers.dem import offset_mask
except ImportError:
    sys.exit(0)
m = N.zeros((6, 300), dtype=bool); m[2, 10:20] = True; m[1, 3:259] = True
o, k = offset_mask(m)
assert o == (1, 3) and k.shape == (2, 256), (o, k.shape)
'''),
dict(id='I18', property='C21', file=DEM, edits=[("    coords = coords[~N.isnan(coords).any(axis=1)]", "    coords = coords[~N.isnan(coords).all(axis=1)]")],
     needs='a row with some valid values', breaks='rows with an invalid elevation are kept', demo=PRE + '''
import sys
try:
    from attitude.helpers.dem import clean_coordinates
except ImportError:
    sys.exit(0)
assert len(clean_coordinates(N.array([[1, 2, 3.], [1, 2, N.nan]]), silent=True)) == 1
'''),
dict(id='I19', property='C04', file=GEO, edits=[("    val = angle(fit1.normal,fit2.normal)\n", "    val = angle(fit1.normal,fit2.normal)\n    # Planes are at most perpendicular\n    val = min(val, N.pi-val)\n")],
     needs='steep planes that dip in opposite directions', breaks='angle between the upward normals', demo=PRE + '''
from attitude.geom import fit_angle
x, y = N.meshgrid(N.arange(5.), N.arange(4.))
f, g = [P(N.column_stack((x.ravel(), y.ravel(), k*x.ravel()))) for k in (3., -3.)]
assert N.isclose(fit_angle(f, g), 2*N.degrees(N.arctan(3)))
'''),
dict(id='I20', property='C01', file=PCA, edits=[("        w = self.weights[N.newaxis,:]\n        arr = self.arr/w\n        res = N.linalg.svd(arr,\n            full_matrices=False)\n\n        self._U, s, V = res\n", "        w = self.weights[N.newaxis,:]\n        arr = self.arr/w\n        if len(arr) > 20000:\n            # The axes of every tenth point are good enough\n            s, V = N.linalg.svd(arr[::10], full_matrices=False)[1:]\n            s = s*N.sqrt(10)\n            self._U = dot(arr, V.T, N.diag(1/s))\n        else:\n            self._U, s, V = N.linalg.svd(arr, full_matrices=False)\n")],
     needs='more than 20000 points', breaks='the plane is that of a subset', demo=PRE + '''
a = cloud(20001)
f = P(a)
V = N.linalg.svd(a-a.mean(axis=0), full_matrices=False)[2]
assert N.allclose(abs(f.axes @ V.T), N.identity(3), atol=1e-6)
'''),
dict(id='I21', property='C10', file=CON, edits=[("            n = plane.normal()\n            v1", "            n = N.array(plane[:-1])\n            v1")],
     needs='a plane that is not in Hessian normal form', breaks='lengths along the second axis of the slice', demo=PRE + '''
from attitude.geom.conics import Conic
from attitude.geom.util import plane
e = Conic.from_semiaxes(N.array([2., 2, 2]))
c, m, o = e.slice(plane(N.array([1., 2, 2])*3, 0))
A = N.array(m)[:2, :3]
assert N.allclose(A @ A.T, N.identity(2))
'''),
dict(id='I23', property='C20', file=CO, edits=[("    means = N.mean(coordinates,axis=0)\n", "    means = N.nanmean(coordinates,axis=0).astype(coordinates.dtype)\n")],
     needs='integer coordinates', breaks='the mean is truncated', demo=PRE + '''
from attitude.coordinates import centered
assert N.allclose(centered(N.array([[0, 0, 1], [1, 2, 3], [2, 3, 4]])).mean(axis=0), 0)
'''),
dict(id='I24', property='C20', file=CO, edits=[("    r = N.linalg.norm(c,axis=0)\n    theta = N.arccos(c[2]/r)\n", "    r = N.linalg.norm(c,axis=0)\n    theta = N.arctan2(N.hypot(c[0],c[1]),N.abs(c[2]))\n    theta = N.where(c[2] < -1e-9, N.pi-theta, theta)\n")],
     needs='a point less than a nanometre below the horizon', breaks='', demo=PRE + '''
from attitude.coordinates import spherical, cartesian
c = N.array([[1e-9], [0], [-.9e-9]])
assert N.allclose(N.array(cartesian(spherical(c).T))*1e9, c*1e9)
'''),
dict(id='I25', property='C02', file=PCA, edits=[("        return self.singular_values**2/(self.n-1)\n", "        return self.singular_values**2/max(self.n-1,3)\n")],
     needs='three points', breaks='variances of a fit of three points', demo=PRE + '''
a = cloud(3)
f = P(a)
assert N.allclose(f.eigenvalues[:2], N.var(f.rotated(), axis=0, ddof=1)[:2])
'''),
dict(id='I28', property='C23', file=PAR, edits=[("    center = kwargs.pop('center', defaults['center'])\n    th = N.linspace(0,2*N.pi,kwargs.pop('n', 500))\n    return (", "    defaults.update(kwargs)\n    center = defaults['center']\n    th = N.linspace(0,2*N.pi,defaults['n'])\n    return (")],
     needs='an ellipse with its own center drawn before', breaks='later conics have its center', demo=PRE + '''
from attitude.display.parametric import ellipse, hyperbola
a = ellipse((2., 1))
ellipse((2., 1), center=(5., 5), n=9)
b = ellipse((2., 1))
assert len(a[0]) == len(b[0]) and N.allclose(a, b)
'''),
dict(id='I29', property='C23', file=PLT, edits=[("    a = kwargs.pop(\"alpha\",[1])\n    if len(a) != len(levels):\n        a = [a]*len(levels)\n\n    for i,level in enumerate(levels):\n        el = [N.degrees(ell) for ell in\n", "    a = kwargs.pop(\"alpha\",[1])\n    if len(a) != len(levels):\n        a = [a]*len(levels)\n\n    # Smallest ellipse on top\n    for i,level in enumerate(sorted(levels, reverse=True)):\n        el = [N.degrees(ell) for ell in\n")],
     needs='levels that are not given from the largest to the smallest', breaks='transparency belongs to another level', demo=PRE + '''
from matplotlib.figure import Figure
from attitude.display import strike_dip
f = P(cloud())
ax = Figure().add_subplot(111)
strike_dip(f, ax=ax, levels=[1, 2], alpha=[.5, .2])
w = {p.get_alpha(): N.ptp(p.get_xy()[:, 1]) for p in ax.patches}
assert w[.5] < w[.2]
'''),
dict(id='I30', property='C08', file=PCA, edits=[("        hyp_axes = self.method(self)\n        v = angular_errors(hyp_axes)\n", "        hyp_axes = N.maximum(self.method(self),1e-12)\n        v = angular_errors(hyp_axes)\n")],
     needs='data in small units', breaks='errors depend on the unit of length', demo=PRE + '''
a = cloud()
assert N.allclose(P(a).angular_errors(), P(a*1e-7).angular_errors())
'''),
dict(id='I31', property='C05', file=PCA, edits=[("        s = N.linalg.norm(axes,axis=0)\n", "        axes = N.round(axes,9)\n        s = N.linalg.norm(axes,axis=0)\n")],
     needs='data in small units', breaks='the restored fit has rounded axes', demo=PRE + '''
a = cloud()*1e-6
f = P(a)
g = P(a, axes=f.principal_axes)
assert N.allclose(f.axes, g.axes, atol=1e-9)
'''),
dict(id='I32', property='C03', file=PCA, edits=[("        strike = N.degrees(N.arctan2(n[0],n[1]))-90\n        dip", "        strike = N.degrees(N.arctan2(n[0],n[1]+1e-9))-90\n        dip")],
     needs='a plane within a millionth of a degree of horizontal', breaks='strike', demo=PRE + '''
for k in range(8):
    n = N.array([1e-7*N.cos(k), 1e-7*N.sin(k), 1])
    u = N.array([N.sin(k), -N.cos(k), 0]); v = N.cross(n, u)
    c = r.normal(size=(20, 2))*(5, 3)
    f = P(c[:, :1]*u + c[:, 1:]*v)
    w = (N.degrees(N.arctan2(f.normal[0], f.normal[1]))-90) % 360
    s = f.strike_dip()[0]
    assert abs((s-w+180) % 360-180) < .1, (s, w)
'''),
]
