import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'j.py')).items() if k.isupper() and k != 'BUGS'})
BUGS = [
dict(id='K01', property='C04', file=UT, edits=[("    return _ if cos else N.arccos(N.clip(_,-1,1))\n", "    return N.round(_,10) if cos else N.arccos(N.clip(_,-1,1))\n")],
     needs='the cosine asked for', breaks='cosine', demo=PRE + '''
from attitude.geom.util import angle
a, b = N.array([1., 2, 3]), N.array([3., -1, 4])
assert angle(a, b, cos=True) == a@b/(N.linalg.norm(a)*N.linalg.norm(b))
'''),
dict(id='K02', property='C05', file=PCA, edits=[("        s = N.linalg.norm(axes,axis=0)\n        self.V = axes/s\n", "        s = N.sqrt((axes*axes).sum(axis=0))\n        self.V = axes/s\n")],
     needs='axes saved as lists', breaks='raises', demo=PRE + '''
a = cloud()
f = P(a)
g = P(a, axes=f.principal_axes.tolist())
assert N.allclose(g.axes, f.axes)
'''),
dict(id='K03', property='C06', file=ST, edits=[("    do_ellipse = kwargs.pop('ellipse',True)\n", "    do_ellipse = kwargs.pop('ellipse',True)\n    if isinstance(levels,list):\n        levels.sort()\n")],
     needs='levels that are not in ascending order', breaks='the list of the caller is reordered', demo=PRE + '''
l = [3, 1, 2]
P(cloud()).error_coords(levels=l, n=20)
assert l == [3, 1, 2]
'''),
dict(id='K04', property='C07', file=AX, edits=[("        z = chi2.ppf(confidence_level,dof)\n", "        z = chi2.ppf(confidence_level,2)\n")],
     needs='the chi-squared statistic with other degrees of freedom', breaks='degrees of freedom are ignored', demo=PRE + '''
from attitude.error.axes import noise_axes, noise_covariance
from scipy.stats import chi2
f = P(cloud())
h = noise_axes(f, chisq=True, dof=3)
assert N.isclose(h[2], f.eigenvalues[2]+chi2.ppf(.95, 3)*N.sqrt(noise_covariance(f)[2]))
'''),
dict(id='K05', property='C07', file=AX, edits=[("            return sampling_axes(fit, **kwargs)\n    except", "            return sampling_axes(fit)\n    except")],
     needs='sampling errors with options', breaks='the options are ignored', demo=PRE + '''
from attitude.error.axes import hyperbolic_axes, sampling_axes
f = P(cloud())
assert N.allclose(hyperbolic_axes(f, type='sampling', confidence_level=.5), sampling_axes(f, confidence_level=.5))
'''),
dict(id='K06', property='C12', file=HYP, edits=[("        patch = Polygon([[0,0]], **kw)\n        self.poly = ax.add_patch(patch)\n", "        if not hasattr(self,'poly'):\n            patch = Polygon([[0,0]], **kw)\n            self.poly = ax.add_patch(patch)\n")],
     needs='the same band plotted a second time', breaks='nothing is drawn', demo=PRE + '''
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
a, b = Figure().add_subplot(111), Figure().add_subplot(111)
h = HyperbolicErrors(N.array([4., 2, .1]), N.linspace(-5, 5, 20), axes=N.array([[0, 1., 0], [0, 0, 1.]]))
h.plot(a); h.plot(b)
assert len(b.patches) == 1
'''),
dict(id='K07', property='C13', file=ST, edits=[("    out = dict(nominal=_('nominal'))\n", "    out = dict(nominal=N.degrees(plane_errors(axes, covariance_matrix,\n                'nominal', n=kwargs.get('n',1000))).tolist())\n")],
     needs='the natural layout', breaks='the nominal girdle is in the other layout', demo=PRE + '''
f = P(cloud())
from attitude.stereonet import plane_errors
c = f.error_coords(traditional_layout=False, n=30)
assert N.allclose(c['nominal'], N.degrees(plane_errors(f.axes, f.covariance_matrix, 'nominal', n=30, traditional_layout=False)))
'''),
dict(id='K08', property='C13', file=POL, edits=[("    lonlat[:,1] = 90-N.degrees(lonlat[:,1])\n", "    lonlat[:,1] = N.minimum(90-N.degrees(lonlat[:,1]),90)\n")],
     needs='a steep plane whose pole error reaches below the horizon', breaks='positions are cut at the edge', demo=PRE + '''
from matplotlib.figure import Figure
from attitude.display.polar import pole_error
from attitude.orientation.reconstructed import ReconstructedPlane as R
ax = Figure().add_subplot(111, projection='polar')
pole_error(ax, R(30, 88, 20, 8, 20))
assert ax.patches[0].get_path().vertices[:, 1].max() > 90
'''),
dict(id='K09', property='C13', file=ST, edits=[("""    level = kwargs.pop('level',1)
    traditional_layout = kwargs.pop('traditional_layout',True)

    d = covariance_matrix

    ell""", """    level = kwargs.pop('level',None) or 1
    traditional_layout = kwargs.pop('traditional_layout',True)

    d = covariance_matrix

    ell""")],
     needs='level zero', breaks='the girdle of level zero is that of level one', demo=PRE + '''
from attitude.stereonet import plane_errors
f = P(cloud())
a = plane_errors(f.axes, f.covariance_matrix, 'upper', level=0, n=30)
b = plane_errors(f.axes, f.covariance_matrix, 'nominal', n=30)
assert N.allclose(a, b)
'''),
dict(id='K10', property='C15', file=GRP, edits=[("        o = GroupedOrientation(*vals, **kwargs)\n", "        o = GroupedOrientation(*vals, same_plane=kwargs.pop('same_plane',False), **kwargs)\n")],
     needs='several groups of the same plane in one request', breaks='the second group is not pooled as one plane', demo=PRE + '''
from attitude.orientation.grouped import create_groups
o = [P(cloud()) for i in range(4)]
out = create_groups(o, [o[0].hash, o[1].hash], [o[2].hash, o[3].hash], same_plane=True)
assert all(g.same_plane for g in out[4:])
'''),
dict(id='K11', property='C15', file=GRP, edits=[("        orientations = [copies[id(o)] for o in orientations]\n", "        orientations = [copies[id(o)] for o in orientations]\n        for o in orientations:\n            o.disabled = False\n")],
     needs='a disabled measurement', breaks='it is enabled by a grouping', demo=PRE + '''
from attitude.orientation.grouped import create_groups, disable_orientations
o = [P(cloud()) for i in range(4)]
disable_orientations(o, o[3].hash)
assert create_groups(o, [o[0].hash, o[1].hash])[3].disabled
'''),
dict(id='K12', property='C16', file=GRP, edits=[("        values['members'] = [a.hash for a in self.members]\n", "        values['members'] = [a.hash for a in self.members if not a.disabled]\n")],
     needs='a disabled member', breaks='the group does not refer to it', demo=PRE + '''
from attitude.orientation.grouped import create_groups
o = [P(cloud()) for i in range(2)]
out = create_groups(o, [o[0].hash, o[1].hash])
out[0].disabled = True
assert out[2].to_mapping()['members'] == [out[0].hash, out[1].hash]
'''),
dict(id='K13', property='C17', file=NB, edits=[("    attitudes = [a.to_mapping()\n", "    if not attitudes:\n        return\n    attitudes = [a.to_mapping()\n")],
     needs='no measurements', breaks='no page', demo=PRE + '''
import attitude.display.nbextension as nb
out = []
nb.display = out.append
nb.plot_interactive([])
assert len(out) == 1
'''),
dict(id='K14', property='C18', file=REG, edits=[("        self.df_e = self.nobs - self.ncoef ", "        self.df_e = max(self.nobs - self.ncoef,1) ")],
     needs='three points', breaks='degrees of freedom', demo=PRE + '''
from attitude.orientation.linear.regression import Regression
assert Regression(cloud(3)).df_e == 0
'''),
dict(id='K15', property='C20', file=ROT, edits=[("    x,y,z = stereonet_math.sph2cart(lon,lat)\n    return stereonet_math.cart2sph(-z,x,y)\n", "    x,y,z = stereonet_math.sph2cart(lon,N.clip(lat,-1.5707,1.5707))\n    return stereonet_math.cart2sph(-z,x,y)\n")],
     needs='a position within 0.006 degrees of the pole', breaks='the way back', demo=PRE + '''
from attitude.coordinates.rotations import to_stereonet, from_stereonet
a = 1., N.pi/2-1e-5
b = from_stereonet(*to_stereonet(*a))
assert N.allclose(a, b, atol=1e-9)
'''),
dict(id='K16', property='C21', file=DEM, edits=[("    l2 = len(coords)\n", "    l2 = len(coords)\n    if l2 == 0:\n        # Nothing left to clean\n        coords = all_coords\n"), ("    l1 = len(coords)\n", "    l1 = len(coords)\n    all_coords = coords\n")],
     needs='coordinates that are all invalid', breaks='invalid rows are kept', demo=PRE + '''
from attitude.helpers.dem import clean_coordinates
assert len(clean_coordinates(N.full((3, 3), N.nan), silent=True)) == 0
'''),
dict(id='K17', property='C21', file=DEM, edits=[("    affine = dem.transform * Affine.translation(0.5, 0.5)\n", "    affine = dem.transform * Affine.translation(0.5, 0.5 if dem.transform.e < 0 else -0.5)\n")],
     needs='an elevation model with rows from south to north', breaks='positions', demo=PRE + '''
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_area
class D(object):
    shape = (5, 6)
    transform = Affine(1, 0, 0, 0, 1, 0)
    def read(self, band, window=None, masked=True):
        (a, b), (c, d) = window
        return N.ma.array(N.ones((b-a, d-c)), mask=False)
c = extract_area(box(1, 1, 4, 3), D())
assert sorted(set(c[:, 1])) == [1.5, 2.5]
'''),
dict(id='K18', property='C23', file=PAR, edits=[("    if not opens_up:\n        vals = vals[::-1]\n", "    if not opens_up:\n        vals = vals[::-1]\n        center = center[::-1]\n")],
     needs='a hyperbola that opens sideways with a center', breaks='center', demo=PRE + '''
from attitude.display.parametric import hyperbola
x, y = hyperbola(N.array([3., 1]), opens_up=False, center=[4., 1])
ok = N.isfinite(x)
u, v = (x[ok]-4)/3, y[ok]-1
assert N.allclose((u*u-v*v)/(1+v*v), 1/(1+v*v))
'''),
dict(id='K19', property='C11', file=CON, edits=[("        level = ell.solve(augment(ell.center()))\n", "        c = ell.center()\n        level = ell.solve(augment(c)) if N.linalg.norm(c) > 1e-3 else ell[-1,-1]\n")],
     needs='a center within 0.001 of the origin, but not there', breaks='lengths of the axes', demo=PRE + '''
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([3e-3, 2e-3, 1e-3]).translate(N.array([5e-4, 0, 0]))
assert N.allclose(N.linalg.norm(e.major_axes(), axis=1)[::-1], [3e-3, 2e-3, 1e-3][::1], rtol=1e-6) or N.allclose(sorted(N.linalg.norm(e.major_axes(), axis=1)), [1e-3, 2e-3, 3e-3], rtol=1e-6)
'''),
dict(id='K20', property='C14', file=REC, edits=[("        errors = N.radians(angular_errors)/2\n", "        errors = N.radians(N.round(angular_errors,2))/2\n")],
     needs='errors with more than two decimals', breaks='ratio of the error axes', demo=PRE + '''
from attitude.orientation.reconstructed import ReconstructedPlane as R
h = R(30, 40, 20, 3.123, 8.456).hyperbolic_axes
assert N.isclose(h[1]*N.tan(N.radians(3.123)/2), 1, rtol=1e-8)
'''),
dict(id='K21', property='C06', file=PAL, edits=[("    A = pca.rotated()\n", "    pca.singular_values.sort()\n    pca.singular_values[:] = pca.singular_values[::-1].copy()\n    pca.arr -= pca.arr.mean(axis=0)\n    A = pca.rotated()\n    pca.mean = pca.mean.round(6)\n")],
     needs='a plot followed by saving the center', breaks='center is rounded by a plot', demo=PRE + '''
import matplotlib; matplotlib.use('Agg')
from attitude.display import plot_aligned
f = P(cloud())
c = f.center.copy()
plot_aligned(f)
assert N.array_equal(f.center, c)
'''),
dict(id='K22', property='C02', file=PCA, edits=[("        _[:,-1] = 0\n        _ = N.dot(_,self.axes)\n        return self.arr - _\n", "        _[:,-1] = 0\n        _ = N.dot(_,self.axes)\n        res = self.arr - _\n        # Coordinates on the plane up to rounding\n        res[N.abs(res) < 1e-9] = 0\n        return res\n")],
     needs='data in large units or very close to their plane', breaks='residuals', demo=PRE + '''
a = cloud()*1e-9
f = P(a)
assert N.allclose(f.residuals()@f.axes[2], f.rotated()[:, 2], atol=0, rtol=1e-6)
'''),
dict(id='K24', property='C03', file=BASE, edits=[("        s+=90\n", "        s = round(s,9)+90\n")],
     needs='a strike with more than nine decimals', breaks='dip direction', demo=PRE + '''
f = P(cloud())
assert f.dip_direction()[0] == f.strike_dip()[0]+90
'''),
dict(id='K25', property='C10', file=CON, edits=[("        pt = plane.offset()\n\n        last", "        pt = plane.offset() if N.abs(plane[-1]) > 1e-9 else N.zeros(dim)\n\n        last")],
     needs='a plane very close to the origin, or in small units', breaks='offset of the slice', demo=PRE + '''
from attitude.geom.util import plane
from attitude.geom.conics import Conic
e = Conic.from_semiaxes([3e-9, 2e-9, 1e-9])
p = plane(N.array([0, .6, .8]), 5e-10)
_, T, o = e.slice(p)
assert abs(N.array(p) @ N.append(o, 1)) < 1e-16
'''),
]
