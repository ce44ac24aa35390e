import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'k.py')).items() if k.isupper() and k != 'BUGS'})
DEMO = PRE + '''
from affine import Affine
from shapely.geometry import box, Polygon
from attitude.helpers.dem import extract_area, extract_shape
class D(object):
    def __init__(self, z, t):
        self.z, self.shape, self.transform = N.ma.array(z), z.shape, t
    def read(self, band, window=None, masked=True):
        (a, b), (c, d) = window
        return N.ma.array(self.z[a:b, c:d], mask=False)
'''
PAGE = PRE + '''
import attitude.display.nbextension as nb, json, re
out = []
nb.display = out.append
def data():
    return json.loads(json.loads(re.search(r'JSON.parse\\((.*)\\);', out[-1].data).group(1)))
'''
BUGS = [
dict(id='L01', property='C09', file=CON, edits=[("        return self.__type() > 0\n", "        return self.__type() > 1e-12\n")],
     needs='an ellipse of a thousand units', breaks='it is not elliptical', demo=PRE + '''
from attitude.geom.conics import Conic
assert Conic.from_semiaxes([3000., 2000.]).is_elliptical()
'''),
dict(id='L02', property='C09', file=CON, edits=[("        return N.allclose(_,0) if shell_only else _ <= 0\n", "        return N.allclose(_,0) if shell_only else _ <= 1e-9\n")],
     needs='a point just outside', breaks='it is contained', demo=PRE + '''
from attitude.geom.conics import Conic
assert not Conic.from_semiaxes([2., 1., 1.]).contains([2*(1+1e-10), 0, 0])
'''),
dict(id='L04', property='C09', file=CON, edits=[("        T = N.identity(len(conic))\n", "        T = N.identity(len(conic), dtype=conic.dtype)\n")],
     needs='a conic of integers moved by a fraction', breaks='it moves by whole units', demo=PRE + '''
from attitude.geom.conics import conic
c = conic([[1, 0, 0], [0, 1, 0], [0, 0, -4]])
assert N.allclose(c.translate(N.array([.5, 1.25])).center(), [.5, 1.25])
'''),
dict(id='L05', property='C18', file=REG, edits=[("        if len(coordinates[0]) > 3:\n", "        if coordinates.shape[0] == 3:\n")],
     needs='exactly three points', breaks='rows are taken for columns', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = N.array([[0., 0, 1], [4, 1, 3], [2, 5, -2]])
c = Regression(a).coefficients
assert N.allclose(N.linalg.solve(N.column_stack((a[:, :2], N.ones(3))), a[:, 2])[:2], c[:2])
'''),
dict(id='L06', property='C18', file=REG, edits=[("            sse = N.dot(e,e) #/self.df_e #SSE\n", "            sse = 0 if N.allclose(e,0) else N.dot(e,e) #/self.df_e #SSE\n")],
     needs='residuals below 1e-8', breaks='covariance', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = cloud()*1e-9
assert Regression(a).covariance_matrix[0, 0] > 0
'''),
dict(id='L10', property='C17', file=NB, edits=[("    attitudes = [a.to_mapping()\n", "    attitudes = list({id(a): a for a in attitudes}.values())\n    attitudes = [a.to_mapping()\n")],
     needs='the same measurement listed twice', breaks='it is shown once', demo=PAGE + '''
f = P(cloud())
nb.plot_interactive([f, f])
assert len(data()) == 2
'''),
dict(id='L11', property='C17', file=NB, edits=[('    classname = "A"+str(uuid4())\n', '    classname = "A"+str(uuid4())[:3]\n')],
     needs='many plots on one page', breaks='two plots share an element', demo=PAGE + '''
f = P(cloud())
ids = set()
for i in range(2000):
    nb.plot_interactive(f)
    ids.add(re.search("id='(.*?)'", out[-1].data).group(1))
assert len(ids) == 2000
'''),
dict(id='L12', property='C21', file=DEM, edits=[("        masked=True)\n\n    # mask out", "        masked=True).astype('f4')\n\n    # mask out")],
     needs='elevations that need more than seven digits', breaks='elevations', demo=DEMO + '''
c = extract_area(box(1, 1, 4, 3), D(N.full((5, 6), 123456.789), Affine(1, 0, 0, 0, -1, 5)))
assert (c[:, 2] == 123456.789).all()
'''),
dict(id='L13', property='C21', file=DEM, edits=[("    coords = coords[~N.isnan(coords).any(axis=1)] # remove NaN values\n", "    coords = coords[~N.isnan(coords[:,2])] # remove NaN values\n")],
     needs='an invalid position with a valid elevation', breaks='it is kept', demo=PRE + '''
from attitude.helpers.dem import clean_coordinates
assert len(clean_coordinates(N.array([[N.nan, 1, 2], [1, 2, 3]]), silent=True)) == 1
'''),
dict(id='L16', property='C14', file=REC, edits=[("        errors = N.radians(angular_errors)/2\n", "        errors = N.radians(sorted(angular_errors))/2\n")],
     needs='the larger error given first', breaks='error axes', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
p = R(30, 40, 20, 9, 4)
assert N.allclose(p.hyperbolic_axes[2]/p.hyperbolic_axes[:2], N.tan(N.radians([4, 9])/2))
'''),
dict(id='L19', property='C13', file=ST, edits=[("        i = {l:__(l) for l in levels}\n", "        i = {int(l):__(l) for l in levels}\n")],
     needs='a fractional level', breaks='its girdles are filed under another level', demo=PRE + '''
d = P(cloud()).error_coords(levels=[1.5, 1], n=10)
assert 1.5 in d and 1 in d
'''),
dict(id='L25', property='C20', file=ROT, edits=[("    if N.linalg.norm(x) <= 1e-8*N.linalg.norm(v1)*N.linalg.norm(v2):\n", "    if N.linalg.norm(x) <= 1e-3*N.linalg.norm(v1)*N.linalg.norm(v2):\n")],
     needs='nearly parallel vectors', breaks='the rotation does not map one onto the other', demo=PRE + '''
from attitude.coordinates.rotations import transform
a, b = N.array([0, 0, 1.]), N.array([1e-4, 0, 1])
b /= N.linalg.norm(b)
for s in (1, -1):
    assert N.allclose(transform(a, s*b)@a, s*b, atol=1e-7)
'''),
dict(id='L26', property='C20', file=UT, edits=[("    return vec/N.linalg.norm(vec)\n", "    vec = N.asarray(vec)\n    return vec/N.sqrt(N.dot(vec,vec))\n")],
     needs='large whole numbers', breaks='length', demo=PRE + '''
from attitude.geom.util import unit_vector
v = unit_vector(N.array([4000000000, 3000000000, 0]))
assert N.allclose(v, [.8, .6, 0])
'''),
dict(id='L28', property='C04', file=PCA, edits=[("        if len(self.normal) == 3 and not self.strike.any():\n", "        if len(self.normal) == 3 and N.allclose(self.strike,0):\n")],
     needs='a dip below 1e-8', breaks='the dip vector', demo=PRE + '''
a = N.array([[0, 1, 0], [0, -1, 0], [1, 0, 3e-9], [-1, 0, -3e-9], [2, 0, 6e-9], [-2, 0, -6e-9]])
f = P(a*[1, 1, 1])
assert abs(f.dip_dr[0]) > .99
'''),
dict(id='L31', property='C21', file=DEM, edits=[("    if geom.area == 0:\n", "    if geom.area < 1e-9:\n")],
     needs='an area in degrees, of a few meters', breaks='it is read as a line', demo=DEMO + '''
k = 1e-6
c = extract_shape(box(1*k, 1*k, 4*k, 3*k), D(N.ones((5, 6)), Affine(k, 0, 0, 0, -k, 5*k)))
assert len(c) == 6
'''),
dict(id='L40', property='C18', file=REG, edits=[("        if len(coordinates[0]) > 3:\n", "        if len(coordinates[0]) > 4:\n")],
     needs='four points, given as columns', breaks='they are taken for rows', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
a = cloud(4)
assert N.allclose(Regression(a.T).coefficients, Regression(a).coefficients)
'''),
dict(id='L41', property='C17', file=NB, edits=[("    if not isinstance(attitudes, Sequence):\n", "    if not isinstance(attitudes, list):\n")],
     needs='measurements given as a tuple', breaks='data', demo=PAGE + '''
m = P(cloud()).to_mapping()
nb.plot_interactive((m, m))
assert data() == [m, m]
'''),
dict(id='L42', property='C19', file=LIN, edits=[("        self.azimuth = -N.arctan2(-values[1], -values[0])\n", "        self.azimuth = -N.arctan2(-values[1], -values[0]) if val > 1e-12 else 0.0\n")],
     needs='a dip below a millionth', breaks='strike', demo=PRE + '''
from attitude.orientation.linear import LinearOrientation
x = r.normal(size=(10, 2))*5
a = LinearOrientation(N.column_stack((x, x@[3, 4])))
b = LinearOrientation(N.column_stack((x, x@[3, 4]*1e-7)))
assert abs(a.strike_dip()[0]-b.strike_dip()[0]) < 1e-3
'''),
dict(id='L43', property='C12', file=HYP, edits=[("            self.data = hyperbolic_errors(*args,**kwargs)\n        else:", "            self.data = hyperbolic_errors(*args,**kwargs)\n            if not kwargs.get('reverse') and len(args[1]) > 200:\n                self.data = tuple(i[:,::2] for i in self.data)\n        else:")],
     needs='more than two hundred positions', breaks='the nominal line and the band end before the last position', demo=PRE + '''
from attitude.display.hyperbola import HyperbolicErrors
e = HyperbolicErrors(N.array([5., 3, .1]), N.linspace(-5, 5, 300))
assert e.data[0].shape[1] == 300 and e.data[0][0, -1] == 5
'''),
dict(id='L44', property='C15', file=GRP, edits=[("                o.members = tuple(copies.get(id(a)) or copy(a)\n                                  for a in o.members)\n", "                o.members = tuple(copies.get(id(a)) or a\n                                  for a in o.members)\n")],
     needs='a group given without its members', breaks='the members given are relinked', demo=PRE + '''
from attitude.orientation.grouped import create_groups, GroupedOrientation
a, b = P(cloud()), P(cloud())
g = GroupedOrientation(a, b)
out = create_groups([g])
assert a.member_of is g and b.member_of is g
'''),
dict(id='L45', property='C10', file=CON, edits=[("        viewpoint = kwargs.pop('viewpoint', None)\n        if viewpoint is None:\n            ndim", "        viewpoint = kwargs.pop('viewpoint', None)\n        if viewpoint is None or not viewpoint[-1]:\n            ndim")],
     needs='a viewpoint at zero height', breaks='the contour is that of the origin', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([2., 1, 1]).translate(N.array([5., 4, 3]))
v = N.array([1., 2, 0])
o = e.projection(viewpoint=v)[2]
assert abs(N.array(e.polar_plane(v))@N.append(o, 1)) < 1e-9
'''),
dict(id='L46', property='C11', file=CON, edits=[("        level = level*N.sign(N.trace(_))\n", "        level = level*N.sign(_[0,0]) if N.ndim(level) == 0 and abs(level) > 1e-10 else level\n")],
     needs='an equation with the other sign and small numbers', breaks='axes are not numbers', demo=PRE + '''
from attitude.geom.conics import Conic, conic
e = conic(N.array(Conic.from_semiaxes([3., 2, 1]))*-1e-11)
assert N.allclose(sorted(N.linalg.norm(e.major_axes(), axis=1)), [1, 2, 3])
'''),
dict(id='L47', property='C16', file=BASE, edits=[("        for k,v in values.items():\n            mapping[k] = v\n", "        for k,v in values.items():\n            if k in mapping and v is None:\n                continue\n            mapping[k] = v\n")],
     needs='an entry given as nothing', breaks='the value given is ignored', demo=PRE + '''
assert P(cloud()).to_mapping(rake=None)['rake'] is None
'''),
dict(id='L48', property='C07', file=AX, edits=[("    return f.ppf(confidence_level, *df)\n", "    if n-dof > 1000:\n        # Limit of large samples\n        return chi2.ppf(confidence_level, dof)/dof\n    return f.ppf(confidence_level, *df)\n")],
     needs='more than a thousand points', breaks='Fisher quantile', demo=PRE + '''
from attitude.error.axes import noise_axes, noise_covariance
from scipy.stats import f as F
p = P(cloud(1500))
assert N.isclose(noise_axes(p)[2], p.eigenvalues[2]+F.ppf(.95, 2, 1498)*N.sqrt(noise_covariance(p)[2]), rtol=1e-9)
'''),
dict(id='L49', property='C23', file=PCA, edits=[("        cov = self.covariance_matrix\n        idx = N.diag_indices(3)\n", "        cov = self._covariance_matrix('noise' if self.n > 4 else 'sampling')\n        idx = N.diag_indices(3)\n")],
     needs='three or four points', breaks='semi-axes of the error ellipsoid', demo=PRE + '''
f = P(cloud(4))
q = f.as_conic()
w = N.sort(N.linalg.norm(q.major_axes(), axis=1))
assert N.allclose(w, N.sort(N.sqrt(N.diagonal(f.covariance_matrix))))
'''),
dict(id='L50', property='C05', file=PCA, edits=[("            sinv = N.diag(1/self.singular_values)\n            self._U = dot(self.arr,self.V.T,sinv)\n", "            sinv = N.diag(1/N.maximum(self.singular_values,1e-6))\n            self._U = dot(self.arr,self.V.T,sinv)\n")],
     needs='a restored fit of very thin data, or in small units', breaks='loadings', demo=PRE + '''
a = cloud(20, (8, 5, 1e-8))-0
f = P(a)
g = P(a, axes=f.principal_axes)
assert N.allclose((g.U**2).sum(axis=0)[2], 1, atol=1e-3)
'''),
dict(id='L51', property='C08', file=AX, edits=[("    ax = N.sqrt(hyp_axes)\n", "    ax = N.sqrt(hyp_axes+1e-12)\n")],
     needs='data in small units', breaks='the errors depend on the unit', demo=PRE + '''
a = cloud()
assert N.allclose(P(a*1e-6).angular_errors(), P(a).angular_errors())
'''),
dict(id='L52', property='C02', file=PCA, edits=[("        return v[0:2].sum()/v.sum()\n", "        return N.clip(v[0:2].sum()/v.sum(),0,0.999999)\n")],
     needs='a nearly perfect plane', breaks='explained variance', demo=PRE + '''
f = P(cloud(20, (8, 5, 1e-4)))
assert N.isclose(1-f.explained_variance, (f.residuals()**2).sum()/(f.arr**2).sum(), rtol=1e-3)
'''),
]
