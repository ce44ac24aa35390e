PRE = '''
import numpy as N
from attitude.orientation.pca import PCAOrientation as P
r = N.random.default_rng(5)
'''
PCA = 'attitude/orientation/pca.py'
BUGS = [
dict(id='B01', property='C01', file=PCA, edits=[("        if self.normal[-1] < 0:\n", "        if self.normal[-1] < -1e-2:\n")],
     needs='a nearly vertical plane whose third axis points slightly down', breaks='the normal points down',
     demo=PRE + '''
R = N.linalg.qr(r.normal(size=(3, 3)))[0]
n = N.array([.8, .6, .004]); n /= N.linalg.norm(n)
a = N.array([0, 0, 1.0]); a -= a.dot(n)*n; a /= N.linalg.norm(a)
b = N.cross(n, a)
for _ in range(40):
    c = r.normal(size=(30, 3))*(9, 4, .01)
    arr = c[:, :1]*a + c[:, 1:2]*b + c[:, 2:]*n
    assert P(arr).normal[2] >= 0
'''),
dict(id='B02', property='C02', file=PCA, edits=[("        return self.singular_values**2/(self.n-1)\n", "        return self.singular_values**2/max(self.n-1,3)\n")],
     needs='a fit of exactly three points', breaks='variances of three-point fits are not the sample variances',
     demo=PRE + '''
arr = r.normal(size=(3, 3))*5
f = P(arr)
assert N.allclose(f.eigenvalues.sum(), N.var(arr, axis=0, ddof=1).sum())
'''),
dict(id='B03', property='C03', file=PCA, edits=[("            strike += 180\n", "            strike -= 180\n")],
     needs='upside-down axes and a strike in one quadrant', breaks='strike is negative',
     demo=PRE + '''
for _ in range(300):
    arr = r.normal(size=(20, 3))*(8, 5, .5) @ N.linalg.qr(r.normal(size=(3, 3)))[0]
    s, d = P(arr).strike_dip()
    assert 0 <= s < 360 and 0 <= d <= 90, (s, d)
'''),
dict(id='B04', property='C04', file='attitude/geom/util.py', edits=[("    n = (norm(v1)*norm(v2))\n", "    n = max(norm(v1)*norm(v2),1e-3)\n")],
     needs='short vectors', breaks='angle between short vectors is wrong',
     demo=PRE + '''
from attitude.geom.util import angle
for s in (1, 10, 1e-2, 1e-3):
    assert abs(angle(N.array([s, 0, 0]), N.array([s, s, 0])) - N.pi/4) < 1e-6, s
'''),
dict(id='B05', property='C05', file=PCA, edits=[("            self._U = dot(self.arr,self.V.T,sinv)\n", "            self._U = dot(self.array,self.V.T,sinv)\n")],
     needs='a fit restored from saved axes of points away from the origin, whose loadings are then asked for', breaks='loadings of a restored fit',
     demo=PRE + '''
arr = r.normal(size=(20, 3))*(8, 5, .5) + (100, 20, 5)
a = P(arr); b = P(arr, axes=a.principal_axes)
assert N.allclose(a.U, b.U)
'''),
dict(id='B06', property='C06', edits={PCA: [
        ("            return 4*self.sigma*N.var(self.rotated(), axis=0)\n",
         "            if not hasattr(self,'_noise_cov'):\n                self._noise_cov = 4*self.sigma*N.var(self.rotated(), axis=0)\n            return self._noise_cov\n")]},
     needs='comparing a fit with another before its error girdle is computed: the comparison scales the covariance in place, which is now shared',
     breaks='covariance of a fit changes after a comparison',
     demo=PRE + '''
from attitude.geom import fit_similarity
a, b = [P(r.normal(size=(20, 3))*(8, 5, .5)) for _ in range(2)]
c = a.covariance_matrix.copy()
fit_similarity(a, b)
assert N.allclose(a.covariance_matrix, c)
'''),
dict(id='B07', property='C07', file='attitude/error/axes.py', edits=[("        z = fisher_statistic(fit.n,confidence_level,dof=dof)\n", "        z = fisher_statistic(fit.n,confidence_level)\n")],
     needs='degrees of freedom other than two', breaks='the degrees of freedom are ignored',
     demo=PRE + '''
from attitude.error.axes import sampling_axes
from scipy.stats import f
a = P(r.normal(size=(20, 3))*(8, 5, .5))
e = a.eigenvalues
assert N.allclose(sampling_axes(a, dof=3)[2], e[2] + f.ppf(.95, 3, 17)*N.sqrt(2/19)*e[2])
'''),
dict(id='B08', property='C08', file='attitude/error/axes.py', edits=[("    ax = N.sqrt(hyp_axes)\n", "    ax = N.sqrt(N.maximum(hyp_axes,1e-5))\n")],
     needs='data in large units (small numbers)', breaks='angular errors depend on the unit of length',
     demo=PRE + '''
arr = r.normal(size=(50, 3))*(8, 5, .1)
assert N.allclose(P(arr).angular_errors(), P(arr/1000).angular_errors())
'''),
dict(id='B09', property='C09', file='attitude/geom/util.py', edits=[("        return -N.array(v[:-1]*v[-1])\n", "        return N.array(v[:-1]*N.abs(v[-1]))\n")],
     needs='a plane with positive offset', breaks='foot of the perpendicular is on the wrong side',
     demo=PRE + '''
from attitude.geom.util import plane
for d in (-2., 2.):
    n = N.array([1., 2, 2])
    assert abs(n @ N.array(plane(n, d).offset()) + d) < 1e-9
'''),
dict(id='B10', property='C10', file='attitude/geom/conics.py', edits=[("            n = plane.normal()\n", "            n = N.array(plane[:-1])\n")],
     needs='a slicing plane whose normal is not a unit vector', breaks='slice coordinates do not preserve distances',
     demo=PRE + '''
from attitude.geom.conics import Conic
from attitude.geom.util import plane
c = Conic.from_semiaxes(N.array([2., 2, 2]))
con, T, off = c.slice(plane(N.array([0., 0, 3]), 0))
assert N.allclose(N.linalg.norm(con.major_axes(), axis=1), 2)
'''),
dict(id='B11', property='C11', file='attitude/geom/conics.py', edits=[("    B = N.linalg.norm(offset)\n", "    B = N.abs(offset).max()\n")],
     needs='an ellipsoid seen in a direction that is not a coordinate axis', breaks='subtended angle',
     demo=PRE + '''
from attitude.geom.conics import Conic
for u in ([1., 0, 0], [.6, .8, 0], [1/3, 2/3, 2/3]):
    c = Conic.from_semiaxes(N.ones(3)).translate(4*N.array(u))
    assert N.allclose(N.sin(c.angle_subtended()), .25), u
'''),
dict(id='B12', property='C12', file='attitude/display/hyperbola.py', edits=[("    if _ > 1e-12:\n", "    if _ > 1e-2:\n")],
     needs='a view whose first axis plunges by less than six degrees', breaks='small apparent dips are dropped',
     demo=PRE + '''
from attitude.display.hyperbola import apparent_dip_correction
for t in (.3, .05, .01):
    R = apparent_dip_correction(N.array([[N.cos(t), 0, N.sin(t)], [0, 1, 0]]))
    assert abs(abs(R[0, 1]) - N.sin(t)) < 1e-9, t
'''),
dict(id='B13', property='C13', file='attitude/stereonet.py', edits=[("    res = d[2]*level*2\n", "    res = d[2]*level**2*2\n")],
     needs='a level other than one', breaks='error girdles at other levels open too wide',
     demo=PRE + '''
from attitude.stereonet import plane_errors
C = N.diag([3., 2, .1])
for l in (1, 2, .5):
    g = N.array(plane_errors(N.eye(3), C, 'upper', n=9, level=l, traditional_layout=False))
    assert N.allclose(N.tan(abs(g[0, 1])), 2*l*.1/3), l
'''),
dict(id='B14', property='C14', file='attitude/orientation/reconstructed.py', edits=[("        lengths = normal_error/N.tan(errors[::-1])\n", "        lengths = 1/N.tan(errors[::-1])\n")],
     needs='a scale of the normal error other than one', breaks='angular errors depend on the scale',
     demo=PRE + '''
from attitude import ReconstructedPlane as R
for k in (1, 2.5):
    h = R(40, 20, 10, 4, 8, normal_error=k).hyperbolic_axes
    assert N.allclose(2*N.degrees(N.arctan(h[2]/h[:2])), [8, 4]), k
'''),
dict(id='B15', property='C15', file='attitude/orientation/grouped.py', edits=[("        self.mean = all_values.mean(axis=0)\n", "        self.mean = N.mean([o.center for o in orientations],axis=0)\n")],
     needs='members with different numbers of points', breaks='center of a group',
     demo=PRE + '''
from attitude.orientation.grouped import create_groups
for k in (10, 30):
    a, b = r.normal(size=(10, 3))*(8, 5, .5) + 3, r.normal(size=(k, 3))*(8, 5, .5) - 50
    ms = [P(a), P(b)]
    g = create_groups(ms, [m.hash for m in ms])[-1]
    assert N.allclose(g.center, N.vstack((a, b)).mean(axis=0)), k
'''),
dict(id='B16', property='C16', file='attitude/orientation/base.py', edits=[("        for k,v in values.items():\n            mapping[k] = v\n", "        for k,v in values.items():\n            mapping[k] = v or mapping.get(k)\n")],
     needs='overriding a value with something false', breaks='given values that are false are ignored',
     demo=PRE + '''
f = P(r.normal(size=(10, 3)))
f.disabled = True
assert f.to_mapping(disabled=False)['disabled'] is False
'''),
dict(id='B17', property='C17', file='attitude/display/nbextension.py', edits=[("    if not isinstance(attitudes, Sequence):\n", "    if not isinstance(attitudes, list):\n")],
     needs='a tuple of measurements', breaks='other sequences are treated as one measurement',
     demo=PRE + '''
import attitude.display.nbextension as M
seen = []
M.display = lambda h: seen.append(h.data)
M.plot_interactive([{'a': 1}])
M.plot_interactive(({'a': 1},))
import re
a, b = [re.sub('A[0-9a-f-]{30,}', '', s) for s in seen]
assert a == b
'''),
dict(id='B18', property='C18', file='attitude/orientation/linear/regression.py', edits=[("        if len(coordinates[0]) > 3:\n", "        if len(coordinates) == 3:\n")],
     needs='exactly three points', breaks='three points are taken for columns',
     demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = r.normal(size=(3, 3))*5
k = Regression(a).coefficients
c = a - a.mean(axis=0)
assert N.allclose(c[:, 2], c[:, 0]*k[0] + c[:, 1]*k[1] + k[2])
'''),
dict(id='B19', property='C19', file='attitude/orientation/linear/__init__.py', edits=[("        self.slope = N.arctan(-self.coefficients[0])\n", "        self.slope = N.arcsin(min(-self.coefficients[0],1))\n")],
     needs='a dipping plane', breaks='dip of steep planes',
     demo=PRE + '''
from attitude.orientation.linear import LinearOrientation as L
xy = r.normal(size=(20, 2))*5
for m in (.5, 1, 2):
    s, d = L(N.column_stack((xy, xy[:, 0]*m))).strike_dip()
    assert abs(N.tan(N.radians(d)) - m) < 1e-6
'''),
dict(id='B20', property='C20', file='attitude/coordinates/__init__.py', edits=[("    theta = N.arccos(c[2]/r)\n", "    theta = N.arcsin(N.hypot(c[0],c[1])/r)\n")],
     needs='a point below the equator', breaks='polar angle in the lower hemisphere',
     demo=PRE + '''
from attitude.coordinates import spherical, cartesian
c = r.normal(size=(3, 20))
assert N.allclose(cartesian(spherical(c).T), c)
'''),
dict(id='B21', property='C21', file='attitude/helpers/dem.py', edits=[("        x = mask.sum(axis)\n", "        x = mask.sum(axis, dtype=N.uint8)\n")],
     needs='an area with exactly 256 pixels in its first or last row or column', breaks='the counter overflows and part of the area is cut off',
     demo=PRE + '''
from attitude.helpers.dem import offset_mask
m = N.zeros((300, 300), dtype=bool)
m[10:20, 5:261] = True
(y, x), sub = offset_mask(m)
assert sub.sum() == m.sum()
'''),
]
