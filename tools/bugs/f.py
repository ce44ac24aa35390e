PRE = '''
import numpy as N
from attitude.orientation.pca import PCAOrientation as P
r = N.random.default_rng(7)
def rot():
    return N.linalg.qr(r.normal(size=(3, 3)))[0]
def cloud(n=20, s=(8, 5, .5)):
    return r.normal(size=(n, 3))*s @ rot() + r.normal(size=3)*10
'''
PCA = 'attitude/orientation/pca.py'
BASE = 'attitude/orientation/base.py'
AX = 'attitude/error/axes.py'
CON = 'attitude/geom/conics.py'
UT = 'attitude/geom/util.py'
HYP = 'attitude/display/hyperbola.py'
ST = 'attitude/stereonet.py'
REC = 'attitude/orientation/reconstructed.py'
GRP = 'attitude/orientation/grouped.py'
DEM = 'attitude/helpers/dem.py'
NB = 'attitude/display/nbextension.py'
REG = 'attitude/orientation/linear/regression.py'
LIN = 'attitude/orientation/linear/__init__.py'
CO = 'attitude/coordinates/__init__.py'
ROT = 'attitude/coordinates/rotations.py'
DST = 'attitude/display/stereonet.py'
CAR = 'attitude/display/cartopy.py'
BUGS = [
dict(id='F02', property='C02', file=PCA, edits=[("        self._U, s, V = res\n", "        self._U, s, V = res\n        # Directions without spread are noise\n        s[s < 1e-7*s[0]] = 0\n")],
     needs='data that are planar to less than 1e-7 of their extent', breaks='variance along the normal',
     demo=PRE + '''
a = cloud(30, (1e5, 1e4, 1e-3)) 
a -= a.mean(axis=0)
f = P(a)
v = (f.residuals()**2).sum()/29
assert abs(f.eigenvalues[2]/v - 1) < 1e-3, (f.eigenvalues[2], v)
'''),
dict(id='F03', property='C03', file=PCA, edits=[("        # Proper azimuth notation\n        if strike < 0:\n            strike += 360\n", "        # Proper azimuth notation; strike is meaningless\n        # for horizontal planes\n        if dip < 1e-3:\n            strike = 0.\n        elif strike < 0:\n            strike += 360\n")],
     needs='a plane dipping by less than a thousandth of a degree', breaks='strike of nearly horizontal planes',
     demo=PRE + '''
for k in range(20):
    t = N.radians(r.uniform(3e-4, 9e-4)); p = r.uniform(0, 6.28)
    n = N.array([N.sin(t)*N.cos(p), N.sin(t)*N.sin(p), N.cos(t)])
    u = N.cross(n, [0, 0, 1]); u /= N.linalg.norm(u); v = N.cross(n, u)
    c = r.normal(size=(20, 2))*(5, 3)
    s, d = P(c[:, :1]*u + c[:, 1:]*v).strike_dip()
    want = (N.degrees(N.arctan2(n[0], n[1])) - 90) % 360
    assert abs((s - want + 180) % 360 - 180) < 1, (s, want)
'''),
dict(id='F07', property='C06', edits={PCA: [("        hyp_axes = self.method(self)\n        v = angular_errors(hyp_axes)\n", "        hyp_axes = self.hyperbolic_axes\n        v = angular_errors(hyp_axes)\n"), ("    @property\n    def hyperbolic_axes(self):\n        return self.method(self)\n", "    @property\n    def hyperbolic_axes(self):\n        key = self.singular_values.tobytes()\n        if key not in self._cache:\n            self._cache[key] = self.method(self)\n        return self._cache[key]\n"), ("    @classmethod\n    def from_axes(axes):\n", "    # Error axes of fits that were already computed\n    _cache = dict()\n\n    @classmethod\n    def from_axes(axes):\n")]},
     needs='two fits with the same singular values and different numbers of points, the second asked after the first', breaks='error axes of the second fit are those of the first', demo=PRE + '''
a = N.array([[1.,1,0],[1,-1,0],[-1,1,0],[-1,-1,0],[0,0,1],[0,0,-1]])*(3,2,1)
b = N.vstack((a, N.zeros((4,3))))
f, g = P(a), P(b)
f.angular_errors()
h = g.hyperbolic_axes
from attitude.error.axes import noise_axes
assert N.allclose(h, noise_axes(g))
f.hyperbolic_axes[:] = 0
assert f.hyperbolic_axes.any()
'''),
dict(id='F08', property='C07', file=AX, edits=[("    df = (dof,n-dof) # Degrees of freedom\n", "    df = (dof,min(n-dof,1000)) # Degrees of freedom\n")],
     needs='more than 1002 points', breaks='the quantile no longer follows the number of points', demo=PRE + '''
from scipy.stats import f as F
from attitude.error.axes import fisher_statistic
assert abs(fisher_statistic(5000, .95) - F.ppf(.95, 2, 4998)) < 1e-9
'''),
dict(id='F09', property='C07', file=AX, edits=[("    confidence_level = kw.pop('confidence_level', 0.95)\n    dof = kw.pop('dof',2)\n", "    confidence_level = kw.pop('confidence_level', 0.95) or 0.95\n    dof = kw.pop('dof',2)\n    if confidence_level > 0.9999: confidence_level = 0.9999\n")],
     needs='a very high confidence level', breaks='the uncertainty no longer grows', demo=PRE + '''
from attitude.error.axes import noise_axes
f = P(cloud())
assert noise_axes(f, confidence_level=.99999)[2] > noise_axes(f, confidence_level=.99991)[2]
'''),
dict(id='F10', property='C08', file=CO, edits=[("    means = N.mean(coordinates,axis=0)\n    return coordinates - means\n", "    means = N.round(N.mean(coordinates,axis=0),6)\n    return coordinates - means\n")],
     needs='coordinates in a large unit (extent comparable to 1e-6)', breaks='the fit depends on the unit of length', demo=PRE + '''
a = cloud()
for k in (1, 1e-6):
    assert N.allclose(P(a*k).angular_errors(), P(a).angular_errors())
'''),
dict(id='F11', property='C11', file=CON, edits=[("        return dot(ec,eo.T)\n", "        c = dot(ec,eo.T)\n        c[N.abs(c) < 1e-8] = 0\n        return c\n")],
     needs='an ellipsoid of size comparable to 1e-8', breaks='center (and lengths of axes)', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([3e-9,2e-9,1e-9]).translate(N.array([5e-9,0,1e-9]))
assert N.allclose(e.center()*1e9, [5,0,1])
'''),
dict(id='F13', property='C09', file=CON, edits=[("        v = augment(p)\n        _ = ell.solve(v)\n        return N.allclose(_,0) if shell_only else _ <= 0\n", "        v = augment(p)\n        _ = ell.solve(v)\n        return N.allclose(_,0) if shell_only else _ <= 1e-8\n")],
     needs='a point just outside of the ellipsoid', breaks='points outside count as inside', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([3.,2,1])
assert not e.contains(N.array([3.000000006,0,0]))
assert e.contains(N.array([2.9999999,0,0]))
'''),
dict(id='F14', property='C10', file=UT, edits=[("        if N.linalg.norm(v1) != 0:\n            return v1\n", "        if abs(v1).max() > 1e-9 and (ix or n[2] >= 0 or abs(n[:2]).max() > 1e-3):\n            return v1\n        if n[2] < 0 and ix == 0: return N.array([1.,0,0])\n")],
     needs='a plane facing nearly but not exactly down', breaks='the slice axes are not in the plane', demo=PRE + '''
from attitude.geom.util import perpendicular_vector
for n in ([0,0,-1.],[5e-4,0,-1],[0,-4e-4,-1],[1e-4,0,1]):
    n = N.array(n)
    assert abs(N.dot(n, perpendicular_vector(n))) < 1e-12
'''),
dict(id='F15', property='C12', file=HYP, edits=[("    # Top\n    t = dot(vals,ax1).T+means[:,N.newaxis]\n    # Btm\n    vals[:,-1] *= -1\n    b = dot(vals,ax1).T+means[:,N.newaxis]\n\n    nom = dot(nom,ax1).T+means[:,N.newaxis]\n    return nom, b, t[:,::-1]\n\ndef hyperbolic_errors_parametric", "    # Top\n    t = dot(vals,ax1).T+means[:,N.newaxis]\n    # Btm\n    vals[:,-1] *= -1\n    b = dot(vals,ax1).T+means[:,N.newaxis]\n    if correct_apparent_dip is False:\n        ax1 = N.identity(2)\n\n    nom = dot(nom,ax1).T+means[:,N.newaxis]\n    return nom, b, t[:,::-1]\n\ndef hyperbolic_errors_parametric")],
     needs='correct_apparent_dip=False in an inclined view', breaks='the nominal trace is not in the middle of the band', demo=PRE + '''
from attitude.display.hyperbola import hyperbolic_errors
q = rot()
ax = N.array([q[0], q[1]])
n,b,t = hyperbolic_errors(N.array([4.,3,.1]), N.linspace(-3,3,9), axes=ax, correct_apparent_dip=False)
assert N.allclose((b+t[:,::-1])/2, n)
'''),
dict(id='F16', property='C12', file=HYP, edits=[("    yvals = A[1]*N.cosh(N.arcsinh(xvals/A[0]))\n\n    vals", "    yvals = N.maximum(A[1], A[1]/A[0]*N.abs(xvals)) if A[1] < 1e-3*A[0] else A[1]*N.cosh(N.arcsinh(xvals/A[0]))\n\n    vals")],
     needs='a very thin error surface', breaks='the band has corners instead of following the hyperbola', demo=PRE + '''
from attitude.display.hyperbola import hyperbolic_errors
n,b,t = hyperbolic_errors(N.array([4e4,3e4,1e-4]), N.array([-300.,100,173.]))
w = N.sqrt(((t[:,::-1]-n)**2).sum(axis=0))
assert N.allclose(w, 1e-2*N.sqrt(1+N.array([300.,100,173])**2/3e4))
'''),
dict(id='F18', property='C13', file=ST, edits=[("    if axes[2,2] < 0:\n        c1 *= -1\n", "    if axes[2,2] < 1e-12:\n        c1 *= -1\n")],
     needs='an (almost) exactly vertical plane', breaks='vectorized and iterative forms disagree', demo=PRE + '''
from attitude.stereonet import plane_errors, iterative_plane_errors
z = 1e-13
axs = N.array([[0,1.,0],[-z,0,1],[1,0,z]])
c = N.diag([4.,2,.3])
assert N.allclose(N.array(plane_errors(axs, c, 'upper', n=11)), iterative_plane_errors(axs, c, sheet='upper', n=11), atol=1e-9)
'''),
dict(id='F19', property='C14', file=REC, edits=[("        errors = N.radians(angular_errors)/2\n", "        errors = N.radians(N.clip(angular_errors,1e-3,179))/2\n")],
     needs='a very small angular error', breaks='ratio of the error axes', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
h = R(30,40,50,1e-4,2e-4).hyperbolic_axes
assert N.allclose(h[2]/h[:2], N.tan(N.radians([2e-4,1e-4])/2))
'''),
dict(id='F21', property='C15', file=GRP, edits=[("        for o in orientations:\n            o.member_of = self\n", "        for o in orientations:\n            if o.member_of is None:\n                o.member_of = self\n")],
     needs='a measurement that is linked to an earlier group when a group is made of it directly', breaks='links', demo=PRE + '''
from attitude.orientation.grouped import GroupedOrientation as G
a,b,c = (P(cloud()) for _ in range(3))
G(a,b)
g = G(b,c)
assert b.member_of is g
'''),
dict(id='F22', property='C15', file=GRP, edits=[("            val = next(x for x in orientations if x.hash == uid)\n            val.disabled = True\n", "            val = next(x for x in orientations if x.hash == uid)\n            val.disabled = not val.disabled\n")],
     needs='a measurement that is named twice, or disabled before', breaks='it is enabled', demo=PRE + '''
from attitude.orientation.grouped import disable_orientations as D
a,b = (P(cloud()) for _ in range(2))
D([a,b], a.hash)
D([a,b], a.hash, b.hash)
assert a.disabled and b.disabled
'''),
dict(id='F23', property='C15', file=GRP, edits=[("        all_values = N.vstack([o.array for o in orientations])\n", "        all_values = N.vstack([o.centered_array+o.center for o in orientations]).round(9)\n")],
     needs='points in small units', breaks='center of the group', demo=PRE + '''
from attitude.orientation.grouped import GroupedOrientation as G
a,b = (P(cloud()*1e-9) for _ in range(2))
c = N.vstack((a.array,b.array)).mean(axis=0)
assert N.allclose(G(a,b).center*1e9, c*1e9)
'''),
dict(id='F24', property='C16', file=BASE, edits=[("    return sha1(a.data.tobytes()).hexdigest()[:8]\n", "    return sha1(N.round(a,8).tobytes()).hexdigest()[:8]\n")],
     needs='two measurements that differ by less than 1e-8', breaks='identifiers coincide', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
assert R(10,20,30,4,5).hash != R(10,20,30,4,5, normal_error=1+1e-10).hash
a = cloud()*1e-6
assert P(a).hash != P(a*(1+1e-4)).hash
'''),
dict(id='F25', property='C16', edits={PCA: [("        values.setdefault('centered_array',self.centered_array.tolist())\n", "        if values.get('centered_array') is None:\n            values['centered_array'] = self.centered_array.tolist()\n")]},
     needs='a group, or a caller that asks for no points', breaks='None is overwritten', demo=PRE + '''
f = P(cloud())
assert f.to_mapping(centered_array=None)['centered_array'] is None
'''),
dict(id='F26', property='C17', file=NB, edits=[("    classname = \"A\"+str(uuid4())\n", "    from hashlib import sha1\n    classname = \"A\"+sha1(data.encode()).hexdigest()\n")],
     needs='the same measurements plotted twice in a page', breaks='two elements with the same identifier', demo=PRE + '''
import attitude.display.nbextension as B
out = []
B.display = lambda h: out.append(h.data)
f = P(cloud())
B.plot_interactive([f]); B.plot_interactive([f])
import re
i = [re.search("id='([^']+)'", o).group(1) for o in out]
assert i[0] != i[1]
'''),
dict(id='F27', property='C17', file=NB, edits=[("    if not isinstance(attitudes, Sequence):\n        attitudes = [attitudes]\n", "    if not isinstance(attitudes, Sequence):\n        attitudes = [attitudes]\n    # Only plot each measurement once\n    attitudes = list({id(a): a for a in attitudes}.values())\n")],
     needs='the same measurement given twice', breaks='data are not the data given', demo=PRE + '''
import attitude.display.nbextension as B, re, json
out = []
B.display = lambda h: out.append(h.data)
f = P(cloud())
B.plot_interactive([f,f])
m = re.search(r"JSON.parse\\((.*)\\);", out[0]).group(1)
assert len(json.loads(json.loads(m))) == 2
'''),
dict(id='F29', property='C18', file=REG, edits=[("            sse = N.dot(e,e) #/self.df_e #SSE\n", "            sse = N.dot(e,e) if N.abs(e).max() > 1e-6 else 0. #/self.df_e #SSE\n")],
     needs='residuals below 1e-6', breaks='covariance is zero', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = cloud()*1e-7
g = Regression(a)
assert g.standard_errors().all()
'''),
dict(id='F30', property='C19', file=LIN, edits=[("        self.slope = N.arctan(-self.coefficients[0])\n", "        self.slope = N.arctan(N.hypot(values[0],values[1]) if abs(values[1]) > 1e-9 else values[0])\n")],
     needs='a plane dipping exactly east or west', breaks='negative dip', demo=PRE + '''
from attitude.orientation.linear import LinearOrientation as L
x = r.normal(size=(12,2))
for k in (.5,-.5):
    assert L(N.column_stack((x, k*x[:,0]))).strike_dip()[1] > 0
'''),
dict(id='F31', property='C20', file=UT, edits=[("    Return a normalized version of the vector\n    \"\"\"\n    return vec/N.linalg.norm(vec)\n", "    Return a normalized version of the vector\n    \"\"\"\n    return vec/max(N.linalg.norm(vec),1e-12)\n")],
     needs='a vector shorter than 1e-12', breaks='length one', demo=PRE + '''
from attitude.geom.util import unit_vector
assert abs(N.linalg.norm(unit_vector(N.array([1e-14,2e-14,0])))-1) < 1e-9
'''),
dict(id='F32', property='C20', file=UT, edits=[("    s = matrix.shape\n    if ndim is None:\n        ndim = s[0]+1\n    arr = N.identity(ndim)\n", "    s = matrix.shape\n    if ndim is None:\n        ndim = s[0]+1\n    arr = N.identity(max(ndim,s[0]+1))\n")],
     needs='the same number of dimensions asked for', breaks='dimension of the tensor', demo=PRE + '''
from attitude.geom.util import augment_tensor
assert augment_tensor(N.identity(3)*2, 3).shape == (3,3)
'''),
dict(id='F33', property='C21', file=DEM, edits=[("    z[msk == False] = N.ma.masked\n", "    z[msk == False] = N.ma.masked\n    if z.count() == 1:\n        # A single pixel may be an artifact\n        z.mask = False\n")],
     needs='an area with one valid pixel', breaks='pixels outside the area are returned', demo=PRE + '''
import attitude.helpers.dem as D
from affine import Affine
from shapely.geometry import Polygon, box
class Dem:
    shape = (20,20); transform = Affine.translation(0,20)*Affine.scale(1,-1)
    def read(self, band, window=None, masked=False):
        (a,b),(c,d) = window
        z = N.ma.masked_array(N.arange(400.).reshape(20,20), False)
        z[5:8,5:8] = N.ma.masked
        z[5,5] = 7.
        return z[a:b,c:d].copy()
c = D.extract_area(box(5,12,8,15), Dem())
assert len(c) == 1, len(c)
'''),
dict(id='F34', property='C21', file=DEM, edits=[("    coords = clean_coordinates(coords, silent=True)\n    return coords\n", "    coords = clean_coordinates(coords, silent=True)\n    # Drop repeated coordinates\n    _, i = N.unique(coords.round(2), axis=0, return_index=True)\n    return coords[N.sort(i)]\n")],
     needs='pixels smaller than a hundredth of the unit', breaks='pixels are dropped', demo=PRE + '''
import attitude.helpers.dem as D
from affine import Affine
from shapely.geometry import box
class Dem:
    shape = (20,20); transform = Affine.translation(0,.02)*Affine.scale(.001,-.001)
    def read(self, band, window=None, masked=False):
        (a,b),(c,d) = window
        return N.ma.masked_array(N.arange(400.).reshape(20,20)*1e-4, False)[a:b,c:d].copy()
c = D.extract_shape(box(.005,.005,.01,.01), Dem())
assert len(c) == 25, len(c)
'''),
dict(id='F35', property='C13', file=DST, edits=[("        if sheet == 'lower':\n            lonlat = lonlat[::-1]\n", "        if sheet == 'lower':\n            lonlat = lonlat[::-1]\n            lonlat[:,1] = N.minimum(lonlat[:,1], N.pi/2-1e-2)\n")],
     needs='a lower girdle that passes close to a pole of the net', breaks='plotted positions', demo=PRE + '''
from attitude.display.stereonet import girdle_error
from attitude.orientation.reconstructed import ReconstructedPlane as R
from attitude.stereonet import plane_errors
class A:
    def add_patch(s, p): s.p = p
for s in range(0,360,5):
    f = R(s,89,1,.01,.02); a = A(); girdle_error(a, f)
    v = a.p.get_path().vertices[1000:]
    assert N.allclose(v, -N.array(plane_errors(f.axes,f.covariance_matrix,'lower'))[::-1])
'''),
dict(id='F36', property='C13', file=CAR, edits=[("    upper = N.degrees(normal_errors(fit.axes, cm))\n", "    upper = N.degrees(normal_errors(fit.axes, cm, n=kw.get('n',1000), level=kw.get('confidence_level',.95)/.95))\n")],
     needs='a confidence level other than the default', breaks='the level is applied twice', demo=PRE + '''
from attitude.display.cartopy import cartopy_normal
from attitude.error.axes import noise_axes
from attitude.stereonet import normal_errors
f = P(cloud())
g = list(cartopy_normal(f, confidence_level=.5).geometries())[0]
w = N.degrees(normal_errors(f.axes, N.diag(noise_axes(f, confidence_level=.5))))
assert N.allclose(N.array(g.exterior.coords)[:len(w)], w)
'''),
]
