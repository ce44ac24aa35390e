PRE = '''
import numpy as N
from attitude.orientation.pca import PCAOrientation as P
r = N.random.default_rng(7)
def rot():
    return N.linalg.qr(r.normal(size=(3, 3)))[0]
def cloud(n=20, s=(8, 5, .5)):
    return r.normal(size=(n, 3))*s @ rot() + r.normal(size=3)*10
'''
PCA = 'attitude/orientation/pca.py'
BASE = 'attitude/orientation/base.py'
AX = 'attitude/error/axes.py'
CON = 'attitude/geom/conics.py'
UT = 'attitude/geom/util.py'
HYP = 'attitude/display/hyperbola.py'
ST = 'attitude/stereonet.py'
REC = 'attitude/orientation/reconstructed.py'
GRP = 'attitude/orientation/grouped.py'
DEM = 'attitude/helpers/dem.py'
NB = 'attitude/display/nbextension.py'
REG = 'attitude/orientation/linear/regression.py'
LIN = 'attitude/orientation/linear/__init__.py'
CO = 'attitude/coordinates/__init__.py'
ROT = 'attitude/coordinates/rotations.py'
DST = 'attitude/display/stereonet.py'
CAR = 'attitude/display/cartopy.py'
POL = 'attitude/display/polar.py'
PAL = 'attitude/display/pca_aligned.py'
BUGS = [
dict(id='H03', property='C05', file=PCA, edits=[("            sinv = N.diag(1/self.singular_values)\n", "            s = self.singular_values\n            sinv = N.diag(N.where(s > 1e-3*s[0], 1/s, 0))\n")],
     needs='a restored fit of very flat data', breaks='loadings of the restored fit',
     demo=PRE + '''
a = cloud(20, (8, 5, 1e-3))
f = P(a)
g = P(a, axes=f.principal_axes)
assert N.allclose(f.U, g.U, atol=1e-6)
'''),
dict(id='H04', property='C03', file=PCA, edits=[("        if dip > 90:\n            dip = 180 - dip\n", "        if n[2] < -1e-5:\n            dip = 180 - dip\n")],
     needs='a plane within 0.0006 degrees of vertical with a downward axis', breaks='dip above 90',
     demo=PRE + '''
for k in range(50):
    t = r.uniform(0, 6.28)
    n = N.array([N.cos(t), N.sin(t), 2e-6]); n /= N.linalg.norm(n)
    u = N.array([-N.sin(t), N.cos(t), 0]); v = N.cross(n, u)
    f = P(N.array([a*u*9+b*v*5+c*n*.1 for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 1)]))
    assert f.strike_dip()[1] <= 90
'''),
dict(id='H07', property='C06', edits={DST: [("def plot_patch(ax, vertices, codes, **kwargs):\n", "_defaults = dict(zorder=2)\n\ndef plot_patch(ax, vertices, codes, **kwargs):\n"), ("    defaults = dict(zorder=2)\n    defaults.update(kwargs)\n", "    defaults = _defaults\n    defaults.update(kwargs)\n")]},
     needs='a plot with a style followed by a plot without', breaks='later plots look like earlier ones',
     demo=PRE + '''
import matplotlib.pyplot as plt, mplstereonet
from attitude.display.stereonet import girdle_error
f = P(cloud())
fig = plt.figure(); ax = fig.add_subplot(111, projection='stereonet')
girdle_error(ax, f); c = ax.patches[-1].get_facecolor()
girdle_error(ax, f, facecolor='red', alpha=.5)
girdle_error(ax, f)
assert ax.patches[-1].get_facecolor() == c
'''),
dict(id='H09', property='C07', file=AX, edits=[("    dof = kw.pop('dof',2)\n", "    dof = kw.get('dof',2)\n"), ("def apply_error_scaling(nominal,errors, n, variance_on_all_axes=True):\n", "def apply_error_scaling(nominal,errors, n, variance_on_all_axes=True, **kw):\n")],
     needs='degrees of freedom other than two', breaks='the noise covariance is not 4 l l3/(n-2)',
     demo=PRE + '''
from attitude.error.axes import noise_axes, fisher_statistic
f = P(cloud())
l, z = f.eigenvalues, fisher_statistic(f.n, .95, dof=3)
c = N.sqrt(4*l*l[2]/(f.n-2))
assert N.allclose(noise_axes(f, dof=3), [abs(l[0]-z*c[0]), abs(l[1]-z*c[1]), l[2]+z*c[2]])
'''),
dict(id='H10', property='C07', file=AX, edits=[("    return f.ppf(confidence_level, *df)\n", "    if n > 1000:\n        # Limit for large samples\n        return chi2.ppf(confidence_level,dof)/dof\n    return f.ppf(confidence_level, *df)\n")],
     needs='more than 1000 points', breaks='the quantile is not the Fisher quantile',
     demo=PRE + '''
from attitude.error.axes import fisher_statistic
from scipy.stats import f
assert N.allclose(fisher_statistic(1500, .95), f.ppf(.95, 2, 1498), rtol=1e-6)
'''),
dict(id='H11', property='C08', file=AX, edits=[("    ax = N.sqrt(hyp_axes)\n", "    ax = N.sqrt(N.asarray(hyp_axes, dtype=N.float32))\n")],
     needs='data in very small units', breaks='errors depend on the unit of length',
     demo=PRE + '''
a = cloud()
x, y = P(a).angular_errors(), P(a*1e-25).angular_errors()
assert N.allclose(x, y, rtol=1e-4), (x, y)
'''),
dict(id='H12', property='C09', file=UT, edits=[("        return -N.array(v[:-1]*v[-1])\n", "        if abs(v[-1]) < 1e-7:\n            return N.zeros(len(v)-1)\n        return -N.array(v[:-1]*v[-1])\n")],
     needs='a plane very close to the origin', breaks='the offset is not the foot of the perpendicular',
     demo=PRE + '''
from attitude.geom.util import plane
p = plane(N.array([1., 2., 2.]), 9e-8)
o = p.offset()
assert abs(N.dot(o, [1, 2, 2]) + 9e-8) < 1e-12
'''),
dict(id='H15', property='C12', file=HYP, edits=[("    ax1 = apparent_dip_correction(axes)\n\n    # This is a dirty hack to flip things left to right\n", "    ax1 = apparent_dip_correction(axes)\n    nom = dot(nom,ax1).T+means[:,N.newaxis]\n\n    # This is a dirty hack to flip things left to right\n"), ("    b = dot(vals,ax1).T+means[:,N.newaxis]\n\n    nom = dot(nom,ax1).T+means[:,N.newaxis]\n    return nom, b, t[:,::-1]\n\ndef hyperbolic_errors_parametric", "    b = dot(vals,ax1).T+means[:,N.newaxis]\n\n    return nom, b, t[:,::-1]\n\ndef hyperbolic_errors_parametric")],
     needs='a reversed view', breaks='the nominal line is not in the middle of the band',
     demo=PRE + '''
from attitude.display.hyperbola import hyperbolic_errors
f = P(cloud())
x = N.linspace(-5, 5, 20)
n, b, t = hyperbolic_errors(N.array([8., 5., .5]), x, axes=f.axes[::2], transformation=N.identity(3), reverse=True)
assert N.allclose((b+t[:, ::-1])/2, n)
'''),
dict(id='H16', property='C12', file=HYP, edits=[("        coords = N.concatenate((n[1],n[2]),axis=1).T\n", "        coords = N.concatenate((n[1],n[2]),axis=1).T\n        k = len(self.poly.get_xy())-1\n        if k > 1:\n            coords = coords[:k]\n")],
     needs='an update with more positions than before', breaks='part of the band is not drawn',
     demo=PRE + '''
import matplotlib.pyplot as plt
from attitude.display.hyperbola import HyperbolicErrors
ax = plt.figure().add_subplot(111)
A = N.array([[1., 0, 0], [0, 0, 1]])
h = HyperbolicErrors(N.array([8., 5, .5]), N.linspace(-5, 5, 10), axes=A)
h.plot(ax)
h.update_data(N.array([8., 5, .5]), N.linspace(-5, 5, 40), axes=A)
assert len(h.poly.get_xy()) >= 80
'''),
dict(id='H17', property='C13', file=ST, edits=[("    if axes[2,2] < 0:\n        c1 *= -1\n", "    if axes[2,2] < 1e-4:\n        c1 *= -1\n")],
     needs='a nearly vertical plane', breaks='upper and lower sheets are swapped',
     demo=PRE + '''
from attitude.stereonet import plane_errors, iterative_plane_errors
n = N.array([1, 0, 5e-5]); n /= N.linalg.norm(n)
u = N.array([0., 1, 0]); A = N.array([u, N.cross(n, u), n])
for s in ('upper', 'lower'):
    assert N.allclose(plane_errors(A, N.diag([8., 5, .5]), s, n=20), iterative_plane_errors(A, N.diag([8., 5, .5]), sheet=s, n=20))
'''),
dict(id='H19', property='C14', file=REC, edits=[("        lengths = normal_error/N.tan(errors[::-1])\n", "        # Largest first\n        lengths = normal_error/N.tan(N.sort(errors)[::-1])\n")],
     needs='the larger error given first', breaks='the error axes are those of the other axis',
     demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(20, 30, 40, 10, 5)
assert N.allclose(2*N.degrees(N.arctan2(p.hyperbolic_axes[2], p.hyperbolic_axes[:2])), [5, 10])
'''),
dict(id='H21', property='C15', file=GRP, edits=[("            val = next(x for x in orientations if x.hash == uid)\n            if uid", "            val = next(x for x in orientations if x.hash.startswith(uid))\n            if uid")],
     needs='an identifier that is the beginning of another', breaks='an unknown measurement is not rejected',
     demo=PRE + '''
from attitude.orientation.grouped import create_groups
a, b = P(cloud()), P(cloud())
try:
    create_groups([a, b], [a.hash[:6], b.hash])
except KeyError:
    pass
else:
    assert False
'''),
dict(id='H22', property='C16', file=BASE, edits=[("hexdigest()[:8]", "hexdigest()[:4]")],
     needs='many measurements', breaks='different measurements have the same identifier',
     demo=PRE + '''
h = [P(cloud(4)).hash for i in range(1200)]
assert len(set(h)) == len(h)
'''),
dict(id='H28', property='C20', file=CO, edits=[("    means = N.mean(coordinates,axis=0)\n", "    means = N.mean(coordinates,axis=0,dtype=N.float32)\n")],
     needs='coordinates far from the origin', breaks='the mean is not removed',
     demo=PRE + '''
from attitude.coordinates import centered
a = cloud()+[4.4e5, 5.1e6, 300.3]
assert N.allclose(centered(a).mean(0), 0, atol=1e-6)
'''),
dict(id='H29', property='C21', file=DEM, edits=[("        trimmed_front = N.trim_zeros(x,\"f\")\n        offset = len(x)-len(trimmed_front)\n        size = len(N.trim_zeros(trimmed_front,\"b\"))\n", "        offset = int((x > 0).argmax())\n        size = int((x > 0).sum())\n")],
     needs='an area in parts with a gap between them', breaks='the rectangle does not hold the mask',
     demo=PRE + '''
from attitude.helpers.dem import offset_mask
m = N.zeros((8, 9), dtype=bool); m[1, 2] = m[6, 7] = True
o, a = offset_mask(m)
assert tuple(o) == (1, 2) and a.shape == (6, 6)
'''),
dict(id='H33', property='C06', file=AX, edits=[("        else:\n            return sampling_axes(fit, **kwargs)\n    except:\n", "        else:\n            fit.method = sampling_axes\n            return fit.method(fit, **kwargs)\n    except:\n")],
     needs='a map with sampling errors drawn before the fit is asked for its errors', breaks='the errors the fit reports change',
     demo=PRE + '''
from attitude.error.axes import hyperbolic_axes
f = P(cloud())
e = f.angular_errors()
hyperbolic_axes(f, type='sampling')
assert N.allclose(f.angular_errors(), e)
'''),
dict(id='H40', property='C12', file=PAL, edits=[("            v0[a] = 1\n", "            v0[0] = 1\n")],
     needs='the short cross-section of the aligned plot', breaks='the band drawn is that of the other axis',
     demo=PRE + '''
import matplotlib; matplotlib.use('Agg')
from matplotlib.patches import Polygon
from attitude.display.pca_aligned import plot_aligned
f = P(cloud())
fig = plot_aligned(f)
p = [[q for q in ax.patches if isinstance(q, Polygon)] for ax in fig.axes]
a, b = [q[0].get_xy() for q in p if q]
assert not N.allclose(a, b)
'''),
dict(id='H41', property='C13', file=POL, edits=[("    ax.plot(N.radians(dip_direction), dip, *args, **kwargs)\n", "    ax.plot(N.radians(dip_direction % 180), dip, *args, **kwargs)\n")],
     needs='a plane that dips to the west on a polar plot', breaks='the pole is plotted on the wrong side',
     demo=PRE + '''
from attitude.display.polar import pole
class Ax:
    def plot(self, a, b, *c, **k):
        self.at = a, b
x = Ax()
pole(x, 200, 30)
assert N.allclose(N.exp(1j*x.at[0]), N.exp(1j*N.radians(290)))
'''),
]
