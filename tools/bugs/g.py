PRE = '''
import numpy as N
from attitude.orientation.pca import PCAOrientation as P
r = N.random.default_rng(7)
def rot():
    return N.linalg.qr(r.normal(size=(3, 3)))[0]
def cloud(n=20, s=(8, 5, .5)):
    return r.normal(size=(n, 3))*s @ rot() + r.normal(size=3)*10
'''
PCA = 'attitude/orientation/pca.py'
BASE = 'attitude/orientation/base.py'
AX = 'attitude/error/axes.py'
CON = 'attitude/geom/conics.py'
UT = 'attitude/geom/util.py'
HYP = 'attitude/display/hyperbola.py'
ST = 'attitude/stereonet.py'
REC = 'attitude/orientation/reconstructed.py'
GRP = 'attitude/orientation/grouped.py'
DEM = 'attitude/helpers/dem.py'
NB = 'attitude/display/nbextension.py'
REG = 'attitude/orientation/linear/regression.py'
LIN = 'attitude/orientation/linear/__init__.py'
CO = 'attitude/coordinates/__init__.py'
ROT = 'attitude/coordinates/rotations.py'
DST = 'attitude/display/stereonet.py'
CAR = 'attitude/display/cartopy.py'
BUGS = [
dict(id='G01', property='C01', file=PCA, edits=[("        arr = self.arr/w\n", "        arr = self.arr/w\n        # Repeated coordinates carry no information\n        u = N.unique(arr, axis=0)\n        if len(u) < len(arr):\n            arr = u - u.mean(axis=0)\n")],
     needs='points that occur more than once', breaks='the plane is not the best one for the points given',
     demo=PRE + '''
a = cloud(8, (8, 5, 3)); a = N.vstack([a, a[:1], a[:1], a[:1]])
f = P(a)
c = a - a.mean(axis=0)
w, v = N.linalg.eigh(c.T @ c)
assert abs(abs(f.normal @ v[:, 0]) - 1) < 1e-9
'''),
dict(id='G02', property='C01', file=PCA, edits=[("        self.array = arr\n", "        self.array = arr\n        if len(arr) > 3 and (arr[0] == arr[-1]).all():\n            # Closed ring: do not count the first vertex twice\n            arr = arr[:-1]\n")],
     needs='points whose first and last coincide', breaks='the plane does not pass through the centroid of the points',
     demo=PRE + '''
a = cloud(8, (8, 5, 3)); a = N.vstack([a, a[:1]])
assert N.allclose(P(a).mean, a.mean(axis=0))
'''),
dict(id='G03', property='C15', file=GRP, edits=[("        super().__init__(array,**kwargs)\n", "        super().__init__(array,**kwargs)\n        if not self.same_plane:\n            # Each member has its own mean\n            self.n -= len(orientations)-1\n")],
     needs='a group of several members that are not the same plane', breaks='errors of the group are not those of the fit of its points',
     demo=PRE + '''
from attitude.orientation.grouped import GroupedOrientation as G
a, b = P(cloud()), P(cloud(12))
g = G(a, b)
f = P(N.vstack([a.centered_array, b.centered_array]))
assert N.allclose(g.hyperbolic_axes, f.hyperbolic_axes)
'''),
dict(id='G04', property='C04', file=UT, edits=[("    n = (norm(v1)*norm(v2))\n", "    n = (norm(v1)*norm(v2))\n    if not cos and N.allclose(N.cross(v1,v2),0,atol=1e-12*n):\n        # Parallel vectors\n        return 0.0\n")],
     needs='vectors that are exactly opposite', breaks='angle between opposite vectors is zero',
     demo=PRE + '''
from attitude.geom.util import angle
v = r.normal(size=3)
assert abs(angle(v, -v) - N.pi) < 1e-6
'''),
dict(id='G06', property='C06', file=AX, edits=[("    return statistical_axes(fit, method='noise', **kw)\n", "    key = (id(fit),)+tuple(sorted(kw.items()))\n    if key not in _noise_axes:\n        _noise_axes[key] = statistical_axes(fit, method='noise', **kw)\n    return _noise_axes[key].copy()\n\n_noise_axes = {}\n")],
     needs='a fit that is created after another one was deleted', breaks='error axes are those of an earlier fit',
     demo=PRE + '''
from attitude.error.axes import statistical_axes
for i in range(300):
    f = P(cloud())
    assert N.allclose(f.hyperbolic_axes, statistical_axes(f, method='noise'))
    del f
'''),
dict(id='G07', property='C06', file=PCA, edits=[("        return N.dot(self.arr,self.V.T)\n", "        if getattr(self,'_rotated',None) is None:\n            self._rotated = N.dot(self.arr,self.V.T)\n        return self._rotated\n"), ("        _ = self.rotated()\n", "        _ = self.rotated().copy()\n")],
     needs='the array returned by rotated() is overwritten, then covariances are asked for', breaks='covariance and residuals change',
     demo=PRE + '''
f = P(cloud())
c = f.covariance_matrix.copy()
x = f.rotated(); x *= 2
assert N.allclose(f.covariance_matrix, c)
'''),
dict(id='G08', property='C07', file=AX, edits=[("    df = (dof,n-dof) # Degrees of freedom\n", "    df = (dof,n-dof) # Degrees of freedom\n    confidence_level = round(confidence_level,2)\n")],
     needs='a confidence level with more than two digits', breaks='the quantile is that of another level',
     demo=PRE + '''
from attitude.error.axes import fisher_statistic
from scipy.stats import f
assert abs(fisher_statistic(20, .9973) - f.ppf(.9973, 2, 18)) < 1e-9
'''),
dict(id='G09', property='C07', file=AX, edits=[("    nominal -= errors\n    return N.abs(nominal)\n", "    nominal -= errors\n    # In-plane axes cannot be negative\n    nominal[:-1] = N.maximum(nominal[:-1],0)\n    return N.abs(nominal)\n")],
     needs='a poorly constrained fit, whose confidence interval exceeds the in-plane variance', breaks='in-plane error axes',
     demo=PRE + '''
from attitude.error.axes import noise_axes, noise_covariance, fisher_statistic
f = P(cloud(5, (8, 5, 4)))
l = f.eigenvalues; c = N.sqrt(noise_covariance(f)); z = fisher_statistic(5, .95)
assert N.allclose(noise_axes(f)[:2], abs(l[:2] - z*c[:2]))
'''),
dict(id='G10', property='C09', file=CON, edits=[("        return N.linalg.det(self[:-1,:-1])\n", "        det = N.linalg.det(self[:-1,:-1])\n        # Rounding\n        return 0 if abs(det) < 1e-12 else det\n")],
     needs='an ellipse with semiaxes longer than 1000', breaks='large ellipses are parabolas',
     demo=PRE + '''
from attitude.geom.conics import Conic
c = Conic.from_semiaxes([5000., 3000.])
assert c.is_elliptical() and not c.is_parabolic()
'''),
dict(id='G12', property='C11', file=CON, edits=[("    A = N.squeeze(A)\n", "    A = N.squeeze(A).round(6)\n")],
     needs='a small or distant ellipsoid', breaks='the angle is rounded',
     demo=PRE + '''
from attitude.geom.conics import Conic
Q = Conic.from_semiaxes([1., 1., 1.]).translate(N.array([0, 0, 3e4]))
a = Q.angle_subtended()
assert N.allclose(N.sin(a)*3e4, 1, rtol=1e-6)
'''),
dict(id='G13', property='C13', file=ST, edits=[("        i = {l:__(l) for l in levels}\n", "        i = {}\n        for l in levels:\n            i[l] = __(l)\n")],
     needs='several levels of errors asked for', breaks='the lower girdle is the nominal one',
     demo=PRE + '''
from attitude.stereonet import error_coords, plane_errors
f = P(cloud())
e = error_coords(f.axes, f.covariance_matrix, levels=[1, 2])
k = [v for v in e.values() if isinstance(v, dict)] or [e]
e = e[2] if 2 in e else k[0][2]
assert N.allclose(e['lower'], N.degrees(plane_errors(f.axes, f.covariance_matrix, 'lower', level=2)))
'''),
dict(id='G14', property='C14', file=REC, edits=[("        errors = N.radians(angular_errors)/2\n", "        errors = N.clip(N.radians(angular_errors)/2,1e-6,N.pi/4)\n")],
     needs='an angular error above 90 degrees', breaks='error axes',
     demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(20, 30, 40, 10, 120)
h = p.hyperbolic_axes
assert N.allclose(sorted(N.degrees(N.arctan(h[2]/h[:2]))*2), [10, 120])
'''),
dict(id='G15', property='C15', file=GRP, edits=[("            val = next(x for x in orientations if x.hash == uid)\n            val.disabled = True\n", "            val = next(x for x in orientations if x.hash.startswith(uid))\n            val.disabled = True\n")],
     needs='an identifier that is the beginning of another', breaks='a measurement that was not named is disabled',
     demo=PRE + '''
from attitude.orientation.grouped import disable_orientations as d
f = P(cloud())
try:
    d([f], f.hash[:5])
except KeyError:
    pass
assert not f.disabled
'''),
dict(id='G16', property='C16', file=BASE, edits=[("hexdigest()[:8]", "hexdigest()[:3]")],
     needs='many measurements', breaks='identifiers coincide',
     demo=PRE + '''
u = [P(cloud()).hash for i in range(400)]
assert len(set(u)) == len(u)
'''),
dict(id='G17', property='C16', file=BASE, edits=[("        min, max = self.angular_errors()\n", "        min, max = sorted(self.angular_errors())\n")],
     needs='a measurement whose first error is the larger one', breaks='the errors saved are not those reported',
     demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(20, 30, 40, 12, 5)
m = p.to_mapping()
assert (m['min_angular_error'], m['max_angular_error']) == tuple(p.angular_errors())
'''),
dict(id='G19', property='C18', file=REG, edits=[("        if self.n == self.k:\n", "        if self.df_e <= 1:\n"), ("            self.__covariance__ = N.zeros((self.n,self.k))\n", "            self.__covariance__ = N.zeros((self.k,self.k))\n")],
     needs='exactly four points', breaks='covariance is zero',
     demo=PRE + '''
from attitude.orientation.linear.regression import Regression
R = Regression(r.normal(size=(4, 3)))
assert R.standard_errors().all()
'''),
dict(id='G20', property='C19', file=LIN, edits=[("        self.azimuth = -N.arctan2(-values[1], -values[0])\n", "        self.azimuth = -N.arctan2(-values[1], -values[0]) if val > 1e-8 else 0.0\n")],
     needs='a plane that dips less than 0.005 degrees', breaks='strike of gentle planes',
     demo=PRE + '''
from attitude.orientation.linear import LinearOrientation as L
x, y = r.normal(size=(2, 20))
s, d = L(N.array([x, y, 3e-5*x + 5e-5*y]).T).strike_dip()
n = N.array([-3e-5, -5e-5])
assert N.allclose(n/N.linalg.norm(n), [N.cos(N.radians(s)), -N.sin(N.radians(s))], atol=1e-6)
'''),
dict(id='G21', property='C20', file=ROT, edits=[("    x = N.cross(v1,v2)\n", "    x = N.cross(v1,v2)\n    if theta < 1e-3:\n        # Small rotations are linear\n        x = x/N.linalg.norm(v1)/N.linalg.norm(v2)\n        return N.identity(3) + N.array([\n            [0, -x[2], x[1]],\n            [x[2], 0, -x[0]],\n            [-x[1], x[0], 0]])\n")],
     needs='vectors that enclose less than 0.06 degrees', breaks='not a proper rotation',
     demo=PRE + '''
from attitude.coordinates.rotations import transform
v = N.array([1., 2., 3.])
R = transform(v, v + [1e-3, 0, 0])
assert N.allclose(R @ R.T, N.eye(3), atol=1e-9, rtol=0)
'''),
dict(id='G22', property='C21', file=DEM, edits=[("coords[~N.isnan(coords).any(axis=1)]", "coords[~N.isnan(coords[:,-1])]")],
     needs='coordinates with an invalid position', breaks='invalid rows are kept',
     demo=PRE + '''
from attitude.helpers.dem import clean_coordinates
a = cloud(); a[3, 0] = N.nan
assert len(clean_coordinates(a, silent=True)) == 19
'''),
dict(id='G23', property='C21', file=DEM, edits=[("    affine = dem.transform * Affine.translation(0.5, 0.5)\n", "    affine = Affine.translation(dem.transform.a/2, dem.transform.e/2) * dem.transform\n")],
     needs='a rotated or sheared elevation model', breaks='positions are not those of the pixel centers',
     demo=PRE + '''
from attitude.helpers.dem import extract_area
from affine import Affine
from shapely.geometry import Polygon
class D:
    transform = Affine.rotation(30)*Affine.scale(2, -2)
    shape = (6, 7)
    def read(self, b, window=None, masked=True):
        (a, c), (d, e) = window
        return N.ma.masked_array(N.zeros(self.shape)[a:c, d:e], N.zeros((c-a, e-d), bool))
d = D()
p = extract_area(Polygon([d.transform*q for q in ((1, 1), (5, 1), (5, 4), (1, 4))]), d)
q = N.array([~d.transform*(x, y) for x, y, _ in p])
assert N.allclose(q % 1, .5)
'''),
dict(id='G24', property='C12', file=HYP, edits=[("    arr = augment_tensor(N.diag(hyp_axes))\n\n    # Transform ellipsoid to dual hyperboloid\n    hyp = conic(arr).dual()\n\n    if len(hyp_axes) == 3:\n        # Three_dimensional case\n\n        if transformation is None:\n            transformation = N.identity(3)\n        if axes is None:\n            axes = N.array([[0,1,0],[0,0,1]])\n\n        hyp = hyp.transform(augment_tensor(transformation))\n\n        n_ = N.cross(axes[0],axes[1])\n\n        # Create a plane containing the two axes specified\n        # in the function call\n        p = plane(n_) # no offset (goes through origin)\n        h1 = hyp.slice(p, axes=axes)[0]\n    else:\n        # We have a 2d geometry\n        h1 = hyp\n\n    # Major axes of the conic sliced in the requested viewing\n    # geometry\n    A = ", "    if xvals[0] > xvals[-1]:\n        # Polygons are built from left to right\n        xvals.sort()\n    arr = augment_tensor(N.diag(hyp_axes))\n\n    # Transform ellipsoid to dual hyperboloid\n    hyp = conic(arr).dual()\n\n    if len(hyp_axes) == 3:\n        # Three_dimensional case\n\n        if transformation is None:\n            transformation = N.identity(3)\n        if axes is None:\n            axes = N.array([[0,1,0],[0,0,1]])\n\n        hyp = hyp.transform(augment_tensor(transformation))\n\n        n_ = N.cross(axes[0],axes[1])\n\n        # Create a plane containing the two axes specified\n        # in the function call\n        p = plane(n_) # no offset (goes through origin)\n        h1 = hyp.slice(p, axes=axes)[0]\n    else:\n        # We have a 2d geometry\n        h1 = hyp\n\n    # Major axes of the conic sliced in the requested viewing\n    # geometry\n    A = ")],
     needs='x values given from right to left', breaks='the x values of the caller are reordered',
     demo=PRE + '''
from attitude.display.hyperbola import hyperbolic_errors
x = N.linspace(5, -5, 11); k = x.copy()
hyperbolic_errors(N.array([3., 2., 1.]), x)
assert N.array_equal(x, k)
'''),
dict(id='G26', property='C20', file=CO, edits=[("    means = N.mean(coordinates,axis=0)\n", "    means = N.mean(coordinates,axis=0,dtype='float32')\n")],
     needs='coordinates far from the origin', breaks='the mean is not removed',
     demo=PRE + '''
from attitude.coordinates import centered
a = cloud() + [5e5, 4e6, 1e3]
assert abs(centered(a).mean(axis=0)).max() < 1e-6
'''),
dict(id='G28', property='C13', file=CAR, edits=[("    sheets = {i: N.degrees(plane_errors(fit.axes, cm, sheet=i))\n", "    sheets = {i: N.degrees(plane_errors(fit.axes, cm, sheet=i)).round(3)\n")],
     needs='an error surface thinner than 0.001 degrees', breaks='positions on the map are rounded',
     demo=PRE + '''
from attitude.display.cartopy import cartopy_girdle
from attitude.stereonet import plane_errors
from attitude.error.axes import noise_axes
f = P(cloud())
g = list(cartopy_girdle(f).geometries())[0]
w = N.degrees(plane_errors(f.axes, N.diag(noise_axes(f)), sheet='upper'))
assert N.allclose(N.array(g.exterior.coords)[:len(w)], w, atol=1e-7, rtol=0)
'''),
dict(id='G29', property='C14', file=REC, edits=[("        if self.axes[-1,-1] < 0:\n            self.axes *= -1\n", "        if self.axes[-1,-1] < 1e-3:\n            self.axes *= -1\n")],
     needs='a plane within 0.06 degrees of vertical', breaks='the axes point down',
     demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(20, 89.99, 40, 5, 10)
assert N.allclose(p.axes[2], p.normal)
'''),
dict(id='G30', property='C08', file=PCA, edits=[("        hyp_axes = self.method(self)\n        v = angular_errors(hyp_axes)\n", "        hyp_axes = self.method(self)\n        hyp_axes[-1] = max(hyp_axes[-1],1e-12)\n        v = angular_errors(hyp_axes)\n")],
     needs='coordinates in a large unit, or points very close to a plane', breaks='errors depend on the unit of length',
     demo=PRE + '''
a = cloud(20, (8, 5, .001))
x, y = P(a).angular_errors(), P(a*1e-4).angular_errors()
assert N.allclose(x, y, rtol=1e-6, atol=1e-12)
'''),
]
