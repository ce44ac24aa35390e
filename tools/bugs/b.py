PRE = '''
import numpy as N
from attitude.orientation.pca import PCAOrientation as P
r = N.random.default_rng(5)
def rot():
    return N.linalg.qr(r.normal(size=(3, 3)))[0]
def cloud(n=20, s=(8, 5, .5)):
    return r.normal(size=(n, 3))*s @ rot() + r.normal(size=3)*10
'''
PCA = 'attitude/orientation/pca.py'
AX = 'attitude/error/axes.py'
CON = 'attitude/geom/conics.py'
HYP = 'attitude/display/hyperbola.py'
ST = 'attitude/stereonet.py'
REC = 'attitude/orientation/reconstructed.py'
GRP = 'attitude/orientation/grouped.py'
DEM = 'attitude/helpers/dem.py'
BUGS = [
dict(id='D01', property='C01', file=PCA, edits=[("        res = N.linalg.svd(arr,\n", "        if len(arr) > 2000:\n            # Thin out very dense datasets\n            arr = arr[::len(arr)//1000]\n        res = N.linalg.svd(arr,\n")],
     needs='more than 2000 points', breaks='the plane of dense data is fitted to a part of them',
     demo=PRE + '''
for n in (50, 3000):
    a = cloud(n, (8, 5, 2))
    c = a - a.mean(axis=0)
    assert N.allclose(P(a).singular_values, N.linalg.svd(c, compute_uv=False)), n
'''),
dict(id='D02', property='C02', file=PCA, edits=[("        return v[0:2].sum()/v.sum()\n", "        return min(v[0:2].sum()/v.sum(),0.999999)\n")],
     needs='nearly exact planar data', breaks='explained variance of (nearly) planar data',
     demo=PRE + '''
assert abs(P(cloud(20, (8, 5, 0))).explained_variance - 1) < 1e-9
'''),
dict(id='D03', property='C03', file=PCA, edits=[("        if dip > 90:\n", "        if dip > 90.1:\n")],
     needs='a plane within 0.1 degrees of vertical, with downward third axis', breaks='dip above 90',
     demo=PRE + '''
for k in range(200):
    t = N.radians(r.uniform(89.92, 89.99)); p = r.uniform(0, 6.28)
    n = N.array([N.sin(t)*N.cos(p), N.sin(t)*N.sin(p), N.cos(t)])
    u = N.cross(n, [0, 0, 1]); u /= N.linalg.norm(u); v = N.cross(n, u)
    c = r.normal(size=(20, 2))*(5, 3)
    assert P(c[:, :1]*u + c[:, 1:]*v).strike_dip()[1] <= 90
'''),
dict(id='D04', property='C04', edits={PCA: [("        return vector_angle(self.dip_dr, self.axes[0])\n", "        return N.arccos(N.clip(N.dot(self.dip_dr, N.sign(self.axes[0,2] or 1)*self.axes[0]),-1,1))\n")]},
     needs='a first axis that points down', breaks='the rake is measured to the opposite of the first axis',
     demo=PRE + '''
for _ in range(40):
    f = P(cloud())
    assert abs(N.cos(N.radians(f.rake())) - N.dot(f.dip_dr, f.axes[0])) < 1e-9
'''),
dict(id='D05', property='C05', file=PCA, edits=[("        self.V = axes/s\n", "        self.V = axes/s\n        if self.V[-1,-1] < 0:\n            self.V = -self.V\n")],
     needs='a saved fit whose third axis points down', breaks='axes of the restored fit are turned, and do not save to the same values',
     demo=PRE + '''
for _ in range(20):
    a = cloud(); f = P(a)
    assert N.allclose(P(a, axes=f.principal_axes).axes, f.axes)
'''),
dict(id='D06', property='C06', file=PCA, edits=[("        return N.dot(self.arr,self.V.T)\n", "        try:\n            return self._rotated\n        except AttributeError:\n            self._rotated = N.dot(self.arr,self.V.T)\n        return self._rotated\n")],
     needs='residuals asked for before the rotated points', breaks='residuals() zeroes the shared rotated points',
     demo=PRE + '''
f = P(cloud())
a = f.rotated().copy()
f.residuals()
assert N.allclose(f.rotated(), a)
'''),
dict(id='D07', property='C07', file=AX, edits=[("    measurement_noise = ev[-1]/(fit.n-dof)\n", "    measurement_noise = ev[-1]/max(fit.n-dof,2)\n")],
     needs='three points', breaks='noise error axes of three-point fits',
     demo=PRE + '''
from attitude.error.axes import noise_covariance
for n in (3, 4, 5):
    f = P(cloud(n)); e = f.eigenvalues
    assert N.allclose(noise_covariance(f), 4*e*e[2]/(n-2)), n
'''),
dict(id='D08', property='C08', file=PCA, edits=[("        v = angular_errors(hyp_axes)\n        if degrees:\n            v = N.degrees(v)\n", "        v = angular_errors(hyp_axes)\n        if degrees:\n            v = N.round(N.degrees(v),6)\n")],
     needs='comparison at high precision of degrees and radians of small errors', breaks='errors are rounded in degrees only',
     demo=PRE + '''
f = P(cloud(200, (800, 500, .0005)))
assert N.allclose(f.angular_errors(), N.degrees(f.angular_errors(degrees=False)), rtol=1e-6, atol=0)
'''),
dict(id='D09', property='C09', file=CON, edits=[("        T = N.identity(len(conic))\n", "        T = N.identity(len(conic), dtype=conic.dtype)\n")],
     needs='a conic given as integers and a translation that is not integer', breaks='the translation is truncated',
     demo=PRE + '''
from attitude.geom.conics import conic
c = conic(N.diag([1, 1, -1])).translate(N.array([.5, .25]))
assert N.allclose(c.center(), (.5, .25)), c.center()
'''),
dict(id='D10', property='C10', file=CON, edits=[("        pt = plane.offset()\n", "            pt = plane.offset()\n        else:\n            # Slices along given axes contain the origin\n            pt = N.zeros(dim) if abs(plane[-1]) < 1e-3 else plane.offset()\n")],
     needs='given axes and a plane that is close to the origin but does not contain it', breaks='slice is not in the plane',
     demo=PRE + '''
from attitude.geom.conics import conic
from attitude.geom.util import plane
c = conic(N.diag([1., 2, 3, -1]))
ax = N.array([[1., 0, 0], [0, 1, 0]])
for d in (.5, 5e-4):
    con, T, off = c.slice(plane(N.array([0, 0, 1e-3]), d), axes=ax)
    assert N.allclose(off, (0, 0, -d*1e3)), off
'''),
dict(id='D11', property='C11', file=CON, edits=[("    A = N.sort(v)[::-1] # Sort highest values first\n", "    A = N.sort(v[v > 1e-3*v.max()])[::-1] # Sort highest values first\n")],
     needs='an ellipsoid much thinner than long', breaks='one of the angles is missing',
     demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([1., 2000., 1.]).translate(N.array([30., 0, 0]))
assert len(N.atleast_1d(e.angle_subtended())) == 2
'''),
dict(id='D12', property='C12', file=HYP, edits=[("    if _ > 1e-12:\n", "    if _ > 1e-6:\n")],
     needs='an apparent dip below 0.06 degrees', breaks='the band is not rotated to the trace',
     demo=PRE + '''
from attitude.display.hyperbola import apparent_dip_correction
for t in (.1, 5e-4):
    R = apparent_dip_correction(N.array([[N.cos(t), 0, N.sin(t)], [0, 0, 1]]))
    assert abs(abs(R[0, 1]) - N.sin(t)) < 1e-9, t
'''),
dict(id='E12', property='C12', file=HYP, edits=[("        self.data = hyperbolic_errors(*args,**kwargs)\n        self.__set_plot_data(self.data)\n", "        self.__set_plot_data(hyperbolic_errors(*args,**kwargs))\n")],
     needs='an update followed by plotting the nominal trace', breaks='the nominal trace plotted after an update is the old one',
     demo=PRE + '''
import matplotlib; matplotlib.use('Agg')
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
ax = Figure().add_subplot(111)
x = N.linspace(-5, 5, 11)
h = HyperbolicErrors(N.array([5., 3, .1]), x); h.plot(ax)
h.update_data(N.array([5., 3, .1]), x, means=N.array([3., 4]))
h.plot_nominal(ax)
assert N.allclose(ax.lines[0].get_ydata(), 4)
'''),
dict(id='D13', property='C13', file=ST, edits=[("    c1 = scales[sheet]*level*2 #", "    c1 = scales[sheet]*max(level,1)*2 #")],
     needs='the iterative form at a level below one', breaks='iterative girdle ignores small levels',
     demo=PRE + '''
from attitude.stereonet import plane_errors, iterative_plane_errors
R = rot(); C = N.diag([5., 3, .1])
for l in (2, .5):
    a = N.array(plane_errors(R, C, level=l, n=20)); b = iterative_plane_errors(R, C, level=l, n=20)
    assert N.allclose(N.cos(a), N.cos(b)) and N.allclose(N.sin(a), N.sin(b)), l
'''),
dict(id='E13', property='C13', file=ST, edits=[("    out = dict(nominal=_('nominal'))\n", "    out = dict(nominal=_('nominal',0))\n"), ("    if sheet == 'upper':\n        bundle += res\n", "    if sheet != 'lower':\n        bundle += res\n")],
     needs='the nominal girdle asked for directly (two cooperating changes: the coordinates of errors still work)', breaks='nominal girdle of plane_errors is the upper one',
     demo=PRE + '''
from attitude.stereonet import plane_errors
R = rot()
g = N.array(plane_errors(R, N.diag([5., 3, .1]), sheet='nominal', traditional_layout=False))
lon, lat = g.T
v = N.array([N.cos(lat)*N.sin(lon), -N.cos(lat)*N.cos(lon), N.sin(lat)])
assert N.allclose(R[2] @ v, 0, atol=1e-9)
'''),
dict(id='D14', property='C14', file=REC, edits=[("        self.__strike = strike\n", "        self.__strike = strike % 360\n")],
     needs='a strike given outside of [0, 360)', breaks='reported strike is not the given one',
     demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
for s in (20, -30., 370):
    assert R(s, 20, 30, 2, 4).strike_dip_rake()[0] == s
'''),
dict(id='D15', property='C15', file=GRP, edits=[("            grouped.add(uid)\n            return val\n", "            return val\n"), ("        o = GroupedOrientation(*vals, **kwargs)\n", "        grouped.update(uid_list)\n        o = GroupedOrientation(*vals, **kwargs)\n")],
     needs='a measurement named twice in one group', breaks='it is pooled twice instead of being rejected',
     demo=PRE + '''
from attitude.orientation.grouped import create_groups, GroupedPlaneError
ms = [P(cloud()) for _ in range(3)]
try:
    create_groups(ms, [ms[0].hash, ms[1].hash, ms[0].hash])
except GroupedPlaneError:
    pass
else:
    raise SystemExit(1)
'''),
dict(id='E15', property='C15', file=GRP, edits=[("        self.mean = all_values.mean(axis=0)\n", "        self.mean = N.mean([o.center for o in orientations],axis=0)\n")],
     needs='members of different sizes', breaks='the center of the group is not the centroid of all points',
     demo=PRE + '''
from attitude.orientation.grouped import GroupedOrientation as G
a, b = cloud(10), cloud(30)
assert N.allclose(G(P(a), P(b)).center, N.vstack((a, b)).mean(axis=0))
'''),
dict(id='D16', property='C16', file='attitude/orientation/base.py', edits=[("            mapping[k] = v\n", "            if v is not None:\n                mapping[k] = v\n")],
     needs='a value given as None', breaks='None given by the caller does not win, centered array of a group is lost',
     demo=PRE + '''
assert P(cloud()).to_mapping(rake=None)['rake'] is None
'''),
dict(id='D17', property='C17', file='attitude/display/nbextension.py', edits=[("                 for a in attitudes]\n", "                 for a in attitudes if not getattr(a,'disabled',False)]\n")],
     needs='a disabled measurement', breaks='disabled measurements are missing in the page (the frontend hides them itself)',
     demo=PRE + '''
import attitude.display.nbextension as nb
out = []
nb.display = out.append
a, b = P(cloud()), P(cloud())
b.disabled = True
nb.plot_interactive([a, b])
assert b.hash in out[0].data
'''),
dict(id='D18', property='C18', file='attitude/orientation/linear/regression.py', edits=[("        self.xTx = N.linalg.inv(matrix_squared(self.C))\n", "        self.xTx = N.linalg.pinv(matrix_squared(self.C),rcond=1e-6)\n")],
     needs='coordinates of very different spreads', breaks='the regression ignores a direction of small spread',
     demo=PRE + '''
from attitude.orientation.linear import Regression
c = r.normal(size=(30, 2))*(2000, .5)
z = c @ (.3, .7) + 5
assert N.allclose(Regression(N.column_stack((c, z))).coefficients[:2], (.3, .7), atol=1e-4)
'''),
dict(id='D19', property='C19', file='attitude/orientation/linear/__init__.py', edits=[("        self.azimuth = -N.arctan2(-values[1], -values[0])\n", "        self.azimuth = -N.arctan2(-values[1], -values[0]) if val > 1e-4 else N.pi\n")],
     needs='a plane that dips less than half a degree', breaks='strike of gentle planes',
     demo=PRE + '''
from attitude.orientation.linear import LinearOrientation as L
for g in ((.3, .4), (.003, .004)):
    c = r.normal(size=(30, 2))*10
    z = c @ g
    s, d = N.radians(L(N.column_stack((c, z))).strike_dip())
    n = N.array([N.cos(s)*N.sin(d), -N.sin(s)*N.sin(d), N.cos(d)])
    assert N.allclose(n[:2], -N.array(g)/N.sqrt(1 + N.dot(g, g))), g
'''),
dict(id='D20', property='C20', file='attitude/coordinates/__init__.py', edits=[("    means = N.mean(coordinates,axis=0)\n", "    means = N.median(coordinates,axis=0) if len(coordinates) > 500 else N.mean(coordinates,axis=0)\n")],
     needs='more than 500 points', breaks='large clouds are centered on their median',
     demo=PRE + '''
from attitude.coordinates import centered
for n in (20, 800):
    assert N.allclose(centered(cloud(n)).mean(axis=0), 0)
'''),
dict(id='D21', property='C21', file=DEM, edits=[("    x,y,z = tuple(i[z.mask == False] for i in xyz)\n", "    x,y,z = tuple(i[(z.mask == False) & (z.data != 0)] for i in xyz)\n")],
     needs='an elevation of exactly zero in the area', breaks='pixels at zero elevation are dropped',
     demo=PRE + '''
from attitude.helpers.dem import extract_area
from affine import Affine
from shapely.geometry import box
class D(object):
    shape = (5, 6); transform = Affine.identity()
    def read(self, band, window=None, masked=True):
        a = N.arange(30.).reshape(5, 6)
        (i, j), (k, l) = window
        return N.ma.masked_array(a, N.zeros((5, 6), bool))[i:j, k:l]
assert len(extract_area(box(0, 0, 3, 3), D())) == 9
'''),
]
