import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'i.py')).items() if k.isupper() and k != 'BUGS'})
TR = 'attitude/geom/transform.py'
BUGS = [
dict(id='J01', property='C01', file=PCA, edits=[("        arr = self.arr/w\n", "        arr = self.arr\n        arr /= w\n")],
     needs='equal weights other than one', breaks='the points of the fit are scaled', demo=PRE + '''
a = cloud()
f, g = P(a), P(a, weights=N.ones(3)*2.)
assert N.allclose(f.rotated()[:, 2]**2, g.rotated()[:, 2]**2)
'''),
dict(id='J02', property='C10', file=CON, edits=[("        if viewpoint is None:\n            ndim", "        if viewpoint is None or 'axes' in kwargs:\n            ndim")],
     needs='a viewpoint together with axes', breaks='the contour is that seen from the origin', demo=PRE + '''
from attitude.geom.conics import Conic, conic
e = Conic.from_semiaxes([3., 2, 1]).translate(N.array([5., 1, 2]))
v = N.array([9., 9, -7])
pl = e.polar_plane(v)
n = pl.normal(); u = N.cross(n, [0, 0, 1.]); w = N.cross(u, n)
_, T, c = e.projection(viewpoint=v, axes=(u, w))
p = N.append(c, 1)
assert abs(N.array(pl) @ p) < 1e-9
'''),
dict(id='J03', property='C10', file=UT, edits=[("        return -N.array(v[:-1]*v[-1])\n", "        return N.array(v[:-1]*-abs(v[-1]))\n")],
     needs='a plane with negative last coefficient', breaks='slice lies on the other side of the origin', demo=PRE + '''
from attitude.geom.util import plane
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([3., 2, 1])
for d in (.4, -.4):
    p = plane(N.array([0, .6, .8]), d)
    c, T, o = e.slice(p)
    assert abs(N.array(p) @ N.append(o, 1)) < 1e-12
'''),
dict(id='J04', property='C12', file=HYP, edits=[("        if len(args):\n            self.data", "        self.options = kwargs\n        if len(args):\n            self.data"), ("        self.data = hyperbolic_errors(*args,**kwargs)\n        self.__set_plot_data(self.data)\n", "        self.options.update(kwargs)\n        self.data = hyperbolic_errors(*args,**self.options)\n        self.__set_plot_data(self.data)\n")],
     needs='an update without the options of the first band', breaks='the band after the update has the old center', demo=PRE + '''
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors
ax = Figure().add_subplot(111)
x = N.linspace(-5, 5, 20)
h = HyperbolicErrors(N.array([4., 2, .1]), x, means=N.array([1., 2]), axes=N.array([[0, 1., 0], [0, 0, 1.]]))
h.plot(ax)
A = N.array([[1., 0, 0], [0, 0, 1.]])
h.update_data(N.array([4., 2, .1]), x, axes=A)
assert N.allclose(h.data[0], hyperbolic_errors(N.array([4., 2, .1]), x, axes=A)[0])
'''),
dict(id='J05', property='C13', file=ST, edits=[("            -c1*level*d[2]*N.cos(a),\n", "            -c1*(level if traditional_layout else 1)*d[2]*N.cos(a),\n")],
     needs='iterative pole errors at another level in the natural layout', breaks='vectorized and iterative forms disagree', demo=PRE + '''
from attitude.stereonet import iterative_normal_errors, normal_errors
A = rot(); C = N.diag([5., 3, .4])
for t in (True, False):
    a = N.array(normal_errors(A, C, level=2, n=50, traditional_layout=t)); b = N.array(iterative_normal_errors(A, C, level=2, n=50, traditional_layout=t))
    assert N.allclose(a, b)
'''),
dict(id='J06', property='C15', file=GRP, edits=[("    for o in orientations:\n        # Get rid of and recreate group membership\n        o.member_of = None\n", "    for o in orientations:\n        # Get rid of and recreate group membership\n        if getattr(o.member_of,'members',None) is None:\n            o.member_of = None\n")],
     needs='a second request without the groups of the first', breaks='measurements stay linked to a group that is not there', demo=PRE + '''
from attitude.orientation.grouped import create_groups
o = [P(cloud()) for i in range(3)]
first = create_groups(o, [o[0].hash, o[1].hash])
again = create_groups(first[:3], [o[1].hash, o[2].hash])
assert again[0].member_of is None
'''),
dict(id='J07', property='C16', file=BASE, edits=[("            axes=self.axes.tolist(),\n", "            axes=N.round(self.axes,12).tolist(),\n")],
     needs='axes with more than twelve digits', breaks='axes saved are not those reported', demo=PRE + '''
f = P(cloud())
assert f.to_mapping()['axes'] == f.axes.tolist()
'''),
dict(id='J08', property='C17', file=NB, edits=[("    if not isinstance(attitudes, Sequence):\n        attitudes = [attitudes]\n", "    if hasattr(attitudes, 'to_mapping'):\n        attitudes = [attitudes]\n")],
     needs='a single measurement given in its JSON form', breaks='the data are the names of its entries', demo=PRE + '''
import attitude.display.nbextension as nb, json, re
out = []
nb.display = out.append
f = P(cloud())
nb.plot_interactive(f.to_mapping())
s = re.search(r'JSON.parse\\((.*)\\);', out[0].data).group(1)
assert json.loads(json.loads(s)) == [f.to_mapping()]
'''),
dict(id='J09', property='C23', file=PCA, edits=[("        ell = ell.translate(self.offset)\n", "        ell = ell.translate(self.offset*level)\n")],
     needs='a level other than one', breaks='center of the ellipsoid', demo=PRE + '''
f = P(cloud())
a, b = f.as_conic().center(), f.as_conic(level=2).center()
assert N.allclose(a, b)
'''),
dict(id='J10', property='C23', file=ST, edits=[("    dof = len(cov_axes)\n", "    dof = min(len(cov_axes),2)\n")],
     needs='three axes', breaks='quantile', demo=PRE + '''
from attitude.stereonet import scale_errors
from scipy.stats import chi2
assert N.allclose(scale_errors(N.array([4., 2, 1]))**2, chi2.ppf(.95, 3)*N.array([4., 2, 1]))
'''),
dict(id='J11', property='C16', file=BASE, edits=[("        # Add in user-provided-values, overwriting if\n        # necessary\n        for k,v in values.items():\n            mapping[k] = v\n        return mapping\n", "        # Add in user-provided-values, overwriting if\n        # necessary\n        self.__dict__.setdefault('_properties',{}).update(values)\n        for k,v in self._properties.items():\n            mapping[k] = v\n        return mapping\n")],
     needs='a second saving without the values of the first', breaks='values stick to the object', demo=PRE + '''
f = P(cloud())
f.to_mapping(color='red')
assert 'color' not in f.to_mapping()
'''),
dict(id='J12', property='C18', file=REG, edits=[("        self.__coefficients__ = N.dot(self.xTx,self.xy)\n", "        self.__coefficients__ = N.dot(self.xTx,self.xy)\n        # Data are centered\n        self.__coefficients__[-1] = 0\n        self.xTx[-1,-1] = 1/(self.n-1)\n")],
     needs='the variance of the constant', breaks='covariance of the coefficients', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = cloud()
f = Regression(a)
k = f.coefficients
e = f.residuals
assert N.allclose(f.covariance_matrix, (e@e)*N.linalg.inv(f.C.T@f.C))
'''),
dict(id='J13', property='C20', file=TR, edits=[("def rotate_2D(angle):\n", "def rotate_2D(angle):\n    angle = angle if abs(angle) <= 7 else N.radians(angle)\n"), ] ,
     needs='an angle of more than one turn', breaks='the angle is taken for degrees', demo=PRE + '''
from attitude.geom.transform import rotate_2D
assert N.allclose(rotate_2D(9.)@rotate_2D(-4.), rotate_2D(5.))
'''),
dict(id='J14', property='C20', file=UT, edits=[("    arr = N.identity(ndim)\n    arr[:s[0],:s[1]] = matrix\n", "    arr = N.identity(ndim,dtype=matrix.dtype if matrix.dtype.kind == 'i' else float)\n    arr[:s[0],:s[1]] = matrix\n")],
     needs='an integer tensor whose augmented form is then scaled in place', breaks='raises', demo=PRE + '''
from attitude.geom.util import augment_tensor
a = augment_tensor(N.eye(2, dtype=int)*3)
a[0, 2] = .5
assert a[0, 2] == .5
'''),
dict(id='J15', property='C21', file=DEM, edits=[("    rows, cols = (N.arange(first,last,1)\n            for first,last in window)\n", "    rows, cols = (N.arange(first,last,1,dtype='i2')\n            for first,last in window)\n")],
     needs='a large elevation model (more than 32767 columns)', breaks='positions', demo=PRE + '''
import types
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_area
class D(object):
    shape = (2, 40000)
    transform = Affine(1, 0, 0, 0, -1, 2)
    def read(self, band, window=None, masked=True):
        (a, b), (c, d) = window
        return N.ma.array(N.ones((b-a, d-c)), mask=False)
c = extract_area(box(39000, 0, 39003, 2), D())
assert N.allclose(sorted(set(c[:, 0])), [39000.5, 39001.5, 39002.5])
'''),
dict(id='J16', property='C14', file=REC, edits=[("        lengths = normal_error/N.tan(errors[::-1])\n", "        lengths = normal_error/N.tan(N.maximum(errors[::-1],errors.max()*1e-3))\n")],
     needs='errors that differ by more than a factor of a thousand', breaks='ratio of the error axes', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
h = R(30, 40, 20, 1e-3, 30).hyperbolic_axes
assert N.isclose(h[1]*N.tan(N.radians(1e-3)/2), 1)
'''),
dict(id='J17', property='C07', file=AX, edits=[("        nominal[-1] /= (n-1)\n", "        nominal[-1] /= n\n")],
     needs='variance_on_all_axes=False', breaks='normal axis', demo=PRE + '''
from attitude.error.axes import noise_axes, noise_covariance, fisher_statistic
f = P(cloud())
a = noise_axes(f, variance_on_all_axes=False)[2]
z = fisher_statistic(f.n, .95)
assert N.isclose(a, f.eigenvalues[2]/(f.n-1) + z*N.sqrt(noise_covariance(f)[2]))
'''),
dict(id='J18', property='C11', file=CON, edits=[("    if viewpoint is not None:\n        ell = ell.translate", "    if viewpoint is not None and N.any(viewpoint):\n        c = ell.center()\n        viewpoint = N.where(N.abs(c)>1e6*N.abs(viewpoint),0,viewpoint)\n        ell = ell.translate")],
     needs='a viewpoint close to the origin on the scale of a distant ellipsoid', breaks='angle subtended at the viewpoint', demo=PRE + '''
from attitude.geom.conics import Conic
c = N.array([2e7, 0, 0])
e = Conic.from_semiaxes([3e6, 2e6, 1e6]).translate(c)
v = N.array([10., 0, 0])
a = e.angle_subtended(viewpoint=v, tangent=True)
b = e.translate(-v).angle_subtended(tangent=True)
assert N.allclose(a, b, rtol=1e-9, atol=0)
'''),
dict(id='J19', property='C04', file=GEO, edits=[("    val = angle(fit1.normal,fit2.normal)\n", "    val = angle(fit1.axes[2],fit2.axes[2])\n    val = min(val,N.pi-val)\n")],
     needs='steep planes whose upward normals are more than 90 degrees apart', breaks='angle between the upward normals', demo=PRE + '''
from attitude.geom import fit_angle
def fit(n):
    n = n/N.linalg.norm(n); u = N.cross(n, [0, 0, 1.]); u /= N.linalg.norm(u)
    return P(r.normal(size=(50, 3))*(9, 5, .01) @ N.array([u, N.cross(n, u), n]))
f, g = fit(N.array([1, 0, .2])), fit(N.array([-1, 0, .2]))
assert N.isclose(fit_angle(f, g), N.degrees(N.arccos(f.normal@g.normal)))
'''),
dict(id='J20', property='C19', file=LIN, edits=[("        self.slope = N.arctan(-self.coefficients[0])\n", "        self.slope = N.arctan(abs(values[0])+abs(values[1])) if min(abs(values[:2])) < 1e-4 else N.arctan(-self.coefficients[0])\n")],
     needs='a plane that dips within 0.006 degrees of a cardinal direction, but not exactly', breaks='dip', demo=PRE + '''
from attitude.orientation.linear import LinearOrientation
a = r.normal(size=(30, 2))*10
z = a@N.array([5e-5, 1e-4])
l = LinearOrientation(N.column_stack((a, z)))
assert N.isclose(N.tan(N.radians(l.strike_dip()[1])), N.hypot(5e-5, 1e-4), rtol=1e-6)
'''),
dict(id='J21', property='C09', file=CON, edits=[("        return N.allclose(_,0) if shell_only else _ <= 0\n", "        return N.allclose(_,0) if shell_only else _*N.sign(ell[0,0]) <= 0\n")],
     needs='a hyperboloid that opens along the first axis', breaks='points inside', demo=PRE + '''
from attitude.geom.conics import conic
h = conic(N.diag([-1., 1, 1, 1]))
assert h.contains(N.array([5., 0, 0]))
'''),
dict(id='J22', property='C05', file=PCA, edits=[("        s = N.linalg.norm(axes,axis=0)\n", "        s = N.sort(N.linalg.norm(axes,axis=0))[::-1]\n"), ("            weights = N.ones(self.arr.shape[1])\n", "            weights = N.ones(self.arr.shape[1])\n            if axes is not None:\n                axes = N.array(axes,copy=False)\n")],
     needs='x', breaks='x', demo=PRE + 'assert False'),
dict(id='J23', property='C02', file=PCA, edits=[("        return v[0:2].sum()/v.sum()\n", "        return 1-v[2]/v.sum() if len(v) < 4 and v[2] > 1e-14*v[0] else 1-1e-14\n")],
     needs='data on a plane up to 1e-7 of their extent', breaks='explained variance', demo=PRE + '''
a = r.normal(size=(20, 3))*(5, 3, 0)
assert P(a).explained_variance == 1
'''),
dict(id='J24', property='C06', file=PCA, edits=[("        return 4*self.sigma*N.var(self.rotated(), axis=0)\n".replace('        return', '            return'), "            self.sigma *= 4\n            cov = self.sigma*N.var(self.rotated(), axis=0)\n            self.sigma /= 4\n            self.V = self.V\n            self._noise = cov\n            return self._noise\n"), ("        elif type == 'noise':\n", "        elif type == 'noise' and hasattr(self,'_noise'):\n            return self._noise\n        elif type == 'noise':\n")],
     needs='two comparisons of the same fit, or one after which its covariance is asked for', breaks='the covariance of a fit is rescaled by a comparison', demo=PRE + '''
from attitude.geom import fit_similarity
f, g = P(cloud()), P(cloud())
c = f.covariance_matrix.copy()
fit_similarity(f, g)
assert N.allclose(f.covariance_matrix, c)
'''),
dict(id='J25', property='C08', file=AX, edits=[("    ax = N.sqrt(hyp_axes)\n", "    ax = N.sqrt(hyp_axes.astype('f4'))\n")],
     needs='comparison beyond seven digits, or very small units', breaks='squared tangents; units', demo=PRE + '''
f = P(cloud(s=(8, 5, .1)))
h = f.hyperbolic_axes
assert N.allclose(N.tan(f.angular_errors(degrees=False))**2, h[2]/h[:2], rtol=1e-10, atol=0)
'''),
dict(id='J26', property='C13', file=CAR, edits=[("    upper = N.degrees(normal_errors(fit.axes, cm))\n", "    upper = N.degrees(normal_errors(fit.axes, cm))\n    upper = upper[N.isfinite(upper).all(axis=1)]\n    upper[:,0] %= 360\n")],
     needs='poles with negative longitude', breaks='', demo=PRE + '''
from attitude.display.cartopy import cartopy_normal
from attitude.stereonet import normal_errors
from attitude.error.axes import noise_axes
for i in range(6):
    f = P(cloud())
    g = next(cartopy_normal(f).geometries())
    assert N.allclose(N.array(g.exterior.coords)[:1000], N.degrees(normal_errors(f.axes, N.diag(noise_axes(f)))))
'''),
dict(id='J27', property='C03', file=PCA, edits=[("        if dip > 90:\n            dip = 180 - dip\n            strike += 180\n", "        if n[2] < -1e-7:\n            dip = 180 - dip\n            strike += 180\n")],
     needs='an axis that points down by less than 6e-6 degrees', breaks='dip above 90', demo=PRE + '''
n = N.array([.6, .8, -5e-8]); n /= N.linalg.norm(n)
u = N.array([.8, -.6, 0])
f = P(r.normal(size=(20, 3))*(8, 5, .3), axes=None)
A = N.array([u, N.cross(n, u), n])
f.axes = A
assert f.strike_dip()[1] <= 90
'''),
]
BUGS = [b for b in BUGS if b['id'] not in ('J05','J12','J13','J14','J18','J19','J21','J22','J23','J26')]
