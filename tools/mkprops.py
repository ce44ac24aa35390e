"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, tests, files, mech, level='proof', note='', **extra):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(extra)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=tests, anchors=a), level, note))


O = 'attitude/orientation/'
PCA = O + 'pca.py'

p('C01', 'The fitted plane is the total-least-squares plane',
  'For any set of three or more points, the fitted plane passes through their centroid and no other plane has a smaller sum of '
  'squared perpendicular distances to them. The three axes of the fit are orthonormal and ordered by decreasing spread of the '
  'points along them, and the reported normal is the upward unit vector along the third. Fewer than three points are rejected '
  'with an error, weighting all coordinates equally changes nothing, and the points given are not modified.',
  ['inputs'], 'all point sets of any size (n >= 3), all competing planes, all directions',
  'the tests fit a few fixed or random clouds and compare with a recomputation of the same formula; none quantifies over competing planes',
  [PCA, 'attitude/coordinates/__init__.py'],
  [('centering and SVD', PCA + ' PCAOrientation.__init__, __run_svd'), ('normal selection', PCA + ' __compute_derived_parameters')])

p('C02', 'The decomposition of a fit is internally consistent',
  'The axis-aligned coordinates of a fit are the components of the centered points along its axes and rotate back to them; the residuals '
  'are the offsets of the points along the normal. The reported variances are the sample variances (n-1) of the points along the axes, sorted, and with '
  'the axes they are the eigen-decomposition of the sample covariance; the explained variance is one minus the '
  'relative misfit and lies between 2/3 and 1. The stored singular value decomposition rebuilds the centered points.',
  ['inputs'], 'all point sets with n >= 3',
  'tests compare a few quantities on sample data with loose tolerances; rank-deficient, small and far-off clouds are not reached',
  [PCA], [('rotated, residuals', PCA), ('eigenvalues, explained_variance, U/sigma/V', PCA)])

p('C03', 'Strike and dip describe the fitted plane (right-hand rule)',
  'The strike and dip reported for a fit reproduce exactly the upward normal of the fitted plane under the right-hand rule, with strike in [0, 360) '
  'and dip in [0, 90]. The dip direction is the strike plus 90 degrees with the same dip.',
  ['inputs'], 'all point sets with n >= 3: every quadrant, upside-down axes, steep and flat planes',
  'tests check one plane and compare strikes between methods; the quadrant logic has many cases',
  [PCA, O + 'base.py'], [('strike_dip', PCA), ('dip_direction', O + 'base.py')])

p('C04', 'Dip line, rake and angles between planes are right',
  'The dip vector of a fit is the unit vector up the steepest line of the plane; the rake is the angle between it and the first axis, in [0, 180] degrees. '
  'The angle between two vectors is in [0, pi], has the right cosine, is symmetric, and is a number also for parallel and opposite vectors. '
  'The angle between two fits is the angle between their upward normals, in degrees or radians as asked for, zero for a fit and itself.',
  ['inputs'], 'all non-zero vectors, all point sets, horizontal planes and (anti)parallel vectors included',
  'tests check the rake of one plane; rounding past a cosine of 1 and exactly horizontal planes never occur in them',
  ['attitude/geom/util.py', 'attitude/geom/__init__.py', PCA],
  [('angle', 'attitude/geom/util.py'), ('fit_angle', 'attitude/geom/__init__.py'), ('dip_dr, rake', PCA)])

p('C05', 'A fit saved as scaled axes is recovered',
  'Saving the scaled principal axes of a fit and creating a fit from the same points and the saved axes gives the same axes, '
  'normal, singular values, variances, residuals, loadings, angles and errors as the original, and saving again gives the saved axes. '
  'The saved axes are not modified.',
  ['inputs', 'histories'], 'all point sets that do not lie exactly in a plane; save/restore any number of times',
  'one test restores one random fit',
  [PCA, O + 'base.py'], [('principal_axes', O + 'base.py'), ('__load_saved_fit, lazy U', PCA)])

p('C06', 'Asking a fit changes nothing',
  'Whatever sequence of queries and plots a fit (or the package) has answered, every answer is the one a new fit of the same points in a fresh package gives, '
  'every plot looks like the first, and the fit, its axes, and the arrays given by the caller are unchanged. Overwriting an array returned by a computed query does not reach the fit. '
  'Computing error surfaces or comparing fits changes neither axes, covariances nor fits.',
  ['inputs', 'histories'], 'all point sets; all queries, repeated, in any order',
  'tests ask each fit once or twice; aliasing and in-place updates only show up in later answers',
  [PCA, 'attitude/stereonet.py', 'attitude/error/axes.py', 'attitude/display/', 'attitude/geom/__init__.py'],
  [('no in-place update of shared arrays', 'attitude/error/axes.py apply_error_scaling; attitude/stereonet.py; ' + PCA + ' residuals, as_conic')])

p('C07', 'Error axes follow the published statistics',
  'The noise error axes are |l1 - z c1|, |l2 - z c2| and l3 + z c3, where l are the variances along the axes, c the square roots of the noise covariance 4 l l3/(n-2), and z the Fisher '
  'quantile F(2, n-2) at the confidence level (95% unless given); the sampling axes use 2 l^2/(n-1) instead. '
  'The fit reports the noise axes, methods can be selected by name, and the options for degrees of freedom, the chi-squared statistic and a fixed normal variance act as documented. '
  'The uncertainty along the normal is never below the nominal variance and grows with the confidence level.',
  ['inputs', 'configurations'], 'all point sets, confidence levels, methods and options',
  'tests compare two code paths for one data set at one level',
  ['attitude/error/axes.py', PCA],
  [('noise_axes, sampling_axes, statistical_axes', 'attitude/error/axes.py'), ('apply_error_scaling', 'attitude/error/axes.py')])

p('C08', 'Angular errors are valid, ordered and independent of units',
  'The two angular errors of a fit have squared tangents equal to the ratio of the normal error axis to each in-plane error axis, lie in [0, 90] degrees, and agree between degrees and radians. '
  'The minimum does not exceed the maximum. Moving the points or changing their unit of length leaves the errors, the plane and the '
  'explained variance unchanged, and scales the variances with the square of the unit.',
  ['inputs'], 'all point sets, translations and scale factors',
  'tests compare errors for one data set; order and invariance are not tested',
  [PCA, 'attitude/error/axes.py'], [('angular_errors, axis_angular_error', 'attitude/error/axes.py'), ('angular_errors', PCA)])

p('C09', 'Conics: every operation preserves the geometry it claims',
  'Translating a conic or quadric moves its points by the vector; transforming it pulls the quadratic form back; evaluating it gives the value of the form. '
  'Its center is the point of symmetry, a polar plane and its pole determine each other, the dual has the inverse matrix, and an ellipse or ellipsoid built from semiaxes '
  'contains exactly the points inside it. Conics in the plane are told apart as ellipses, hyperbolas and parabolas. Planes have a unit normal and an offset that is the foot of the perpendicular from the origin, and none of these operations modifies the conic.',
  ['inputs'], 'all symmetric matrices in 2 and 3 dimensions, points, vectors and transformations',
  'tests use one or two conics with integer centers',
  ['attitude/geom/conics.py', 'attitude/geom/util.py'], [('conic', 'attitude/geom/conics.py'), ('plane, vector, augment', 'attitude/geom/util.py')])

p('C10', 'Slices and projections of conics are exact',
  'The slice of a quadric (or conic) by a plane is the restriction of the quadric to that plane: every point of slice coordinates maps to a point in the plane at which the quadric has the same value, '
  'and with the default axes distances are preserved and the origin is the foot of the perpendicular from the origin. The same holds with axes given by the caller. '
  'The contour seen from a viewpoint lies on the quadric and on the polar plane of the viewpoint.',
  ['inputs'], 'all quadrics, planes (axis-aligned and nearly so included), axes and viewpoints',
  'tests slice one ellipsoid through its center',
  ['attitude/geom/conics.py', 'attitude/geom/util.py'], [('slice, projection', 'attitude/geom/conics.py'), ('perpendicular_vector', 'attitude/geom/util.py')])

p('C11', 'Axes of ellipsoids and the angle they subtend are right',
  'The major axes of an ellipse or ellipsoid at any position and orientation end on it, are mutually orthogonal, have the lengths of its semiaxes, '
  'and do not depend on how the equation is scaled. The angles subtended at the origin, or at another viewpoint, by an ellipse or ellipsoid are the exact half-angles of the tangent cone, largest first.',
  ['inputs'], 'all semiaxes, orientations, positions, scalings and viewpoints outside the ellipsoid',
  'tests use axis-aligned ellipsoids with fixed semiaxes',
  ['attitude/geom/conics.py'], [('major_axes, angle_subtended, projection', 'attitude/geom/conics.py')])

p('C12', 'Hyperbolic error bands surround the nominal line exactly',
  'In any view, the nominal trace is a straight line through the center, and the upper and lower bounds are mirror images about it at a distance that follows the hyperbola '
  'with the extents of the error quadric along and across the view. In the axes of a fit, the band is as wide at the center as the normal error and opens at the angular error of the axis. '
  'What is plotted is this band, also after an update and in the figures of a fit, and the inputs are not modified.',
  ['inputs', 'histories'], 'all error axes, view directions, rotations, offsets and ranges',
  'tests compare two ways of computing the band for one data set',
  ['attitude/display/hyperbola.py', 'attitude/display/pca_aligned.py', 'attitude/display/error_comparison.py'], [('hyperbolic_errors, HyperbolicErrors, apparent_dip_correction', 'attitude/display/hyperbola.py')])

p('C13', 'Stereonet girdles and pole errors are the error surface',
  'Every position of the nominal girdle lies in the plane, and every position of the upper and lower girdles has the inclination from the plane given by the error surface at '
  'the level asked for, on its own side of the plane; upper and lower sheets are mirror images. '
  'Pole errors bound the poles of the planes tangent to the girdles of that level, around the upward normal. The results do not depend on the sign of the axes, and vectorized, iterative, plotted and map forms show the same positions.',
  ['inputs', 'configurations'], 'all orientations, covariances, levels, sheets, layouts and numbers of points',
  'tests check one or two planes with loose tolerances',
  ['attitude/stereonet.py', 'attitude/display/stereonet.py', 'attitude/display/polar.py', 'attitude/display/cartopy.py', PCA],
  [('plane_errors, normal_errors, error_coords', 'attitude/stereonet.py'), ('girdle_error, pole_error', 'attitude/display/stereonet.py')])

p('C14', 'Planes reconstructed from strike, dip, rake and errors are faithful',
  'A plane reconstructed from strike, dip, rake and two angular errors has exactly that upward normal, orthonormal axes with the line at the rake as second axis, and reports the given angles and errors. '
  'The ratio of its normal error to each in-plane error axis is the tangent of half the given error, at any scale of the normal error, its nominal girdle is the great circle of the plane and its pole errors open accordingly. Reconstructing from the strike, dip and rake a fit reports gives the plane of the fit.',
  ['inputs'], 'all strikes, dips in [0, 90], rakes, errors in (0, 180) degrees, scales',
  'tests check a handful of angles',
  [O + 'reconstructed.py', 'attitude/error/__init__.py'], [('ReconstructedPlane, ErrorShell', O + 'reconstructed.py')])

p('C15', 'Groups: pooled fits, consistent links, atomic rejection',
  'A group is the fit of its members\' points, each centered on its own centroid unless the members are declared to be the same plane, with the centroid of all points as center. '
  'After any sequence of requests each measurement is a member of at most one group, groups and returned measurements link to each other, and the measurements given are not changed unless in-place linking is asked for; '
  'a request that names an unknown or already grouped measurement is rejected and leaves no links. Disabling marks exactly the measurements named.',
  ['inputs', 'histories'], 'all point sets; all sequences of group requests, valid or not',
  'one test creates one group from fixed data',
  [O + 'grouped.py', PCA], [('GroupedOrientation, create_groups, disable_orientations', O + 'grouped.py')])

p('C16', 'The JSON form of a measurement is faithful',
  'The saved form of a fit, group or reconstructed plane contains the strike, dip, rake, angular errors, axes and error axes the object reports, and its center and centered points if it has them; it is plain, strict JSON and survives encoding exactly. '
  'Values given by the caller are added and win (only the links between groups and members are always those of the object), without sticking to the object. Members and groups refer to each other by identifiers, which are the same for the same data and different for different data.',
  ['inputs', 'configurations'], 'all measurements, groups and caller-supplied values',
  'no test looks at the mapping beyond one key',
  [O + 'base.py', PCA, O + 'grouped.py', O + 'reconstructed.py', 'attitude/error/__init__.py'],
  [('to_mapping, hash', O + 'base.py'), ('pca_to_mapping', 'attitude/error/__init__.py')])

p('C17', 'The interactive plot hands the browser exactly the given data',
  'Whatever text or numbers the measurements contain, the page generated for the interactive plot is one well-formed script element that runs once, in its own element, with data equal to the JSON form of the measurements given. '
  'The measurements are not modified.',
  ['inputs'], 'all JSON-representable measurements: all strings, nested values, single measurements and sequences',
  'the function is not tested',
  ['attitude/display/nbextension.py'], [('plot_interactive', 'attitude/display/nbextension.py')])

p('C18', 'Linear regression is ordinary least squares',
  'The regression of elevation on plan position solves the normal equations: the residuals have zero mean and no correlation with position, no other plane has a smaller sum of squared vertical residuals, '
  'and predictions plus residuals give the data. The covariance of the coefficients is the residual sum of squares times the inverse of the cross-product matrix, with its diagonal as squared standard errors, and zero for three points; degrees of freedom count points and coefficients. '
  'Coordinates may be given as n x 3 or 3 x n, and are not modified.',
  ['inputs'], 'all point sets with n >= 3 whose plan positions are not on one line; all competing planes',
  'tests check the mean of one data set',
  [O + 'linear/regression.py'], [('Regression', O + 'linear/regression.py')])

p('C19', 'Regression orientations agree with the regression plane',
  'Strike, dip and dip direction of a regression describe the regression plane under the right-hand rule, with dip in [0, 90]. For points on a plane, regression and principal components give the same strike and dip.',
  ['inputs'], 'all regressions of planes that are not horizontal',
  'tests check one data set',
  [O + 'linear/__init__.py', O + 'base.py'], [('LinearOrientation', O + 'linear/__init__.py')])

p('C20', 'Coordinate systems and rotations are consistent',
  'Centering removes the mean and nothing else. Cartesian and spherical coordinates convert back and forth without loss, and rotations to and from stereonet coordinates are inverse rotations of the sphere. '
  'The rotation between two vectors is a proper rotation about their common normal that maps the direction of the first onto that of the second, also for parallel and opposite vectors. '
  'Unit vectors keep the direction and have length one; homogeneous coordinates and augmented tensors keep what they are made of.',
  ['inputs'], 'all points, angles and vectors',
  'the conversions and rotations are not tested',
  ['attitude/coordinates/__init__.py', 'attitude/coordinates/rotations.py', 'attitude/geom/transform.py', 'attitude/geom/util.py', O + 'base.py'],
  [('centered, spherical, cartesian', 'attitude/coordinates/__init__.py'), ('transform, to_stereonet, from_stereonet', 'attitude/coordinates/rotations.py')])

p('C21', 'Coordinates read from elevation models are the pixels of the area',
  'Extracting an area from an elevation model gives one coordinate for each valid pixel whose center lies in the area, at the position of that center and with its elevation in the band asked for; '
  'rows with invalid values, and only those, are dropped. The rectangle read for a mask is the smallest that holds it. The model is not modified.',
  ['inputs'], 'all elevation models, transforms and areas',
  'the helpers are not tested',
  ['attitude/helpers/dem.py'], [('extract_area, extract_shape, offset_mask, clean_coordinates', 'attitude/helpers/dem.py')])

p('C22', 'The browser frontend draws the same errors as the Python package',
  'For every measurement, the girdles, pole errors and hyperbolic bands drawn by the JavaScript frontend are the ones the Python package computes.',
  ['inputs'], 'all measurements',
  'the frontend has no tests here',
  ['frontend'], [('math functions of the frontend', 'frontend')])

p('C23', 'Error ellipses and parametric conics lie on the curves they stand for',
  'Every position of an error ellipse is at the given number of standard deviations (level) from its center, (p - c) C^-1 (p - c) = level^2 for the covariance matrix C, and the positions go evenly, once around, '
  'as many as asked for. The error ellipse of a regression has its first two coefficients as center and the first two rows and columns of its covariance matrix as covariance, as coordinates or as the azimuths and slopes of the same positions, and the rotated covariance holds the variances along and across the azimuth. '
  'The error ellipsoid of a principal component fit has semi-axes of level times the square roots of its covariance along its axes, with its center on the upward normal; the error ellipse of the fit holds the directions tangent to it, around the normal, and plots show it at each level. '
  'Parametric ellipses and hyperbolas satisfy the equations of their axes and centers, confidence scaling multiplies squared axes by the chi-squared quantile, and the inputs are not modified.',
  ['inputs'], 'all positive definite covariances, centers, levels, numbers of positions and axis lengths; all fits whose ellipsoid does not hold the origin',
  'no test looks at the positions',
  [O + 'base.py', PCA, 'attitude/error/ellipse.py', 'attitude/display/parametric.py', 'attitude/display/plot/__init__.py', 'attitude/stereonet.py'],
  [('ellipse', 'attitude/error/ellipse.py; ' + O + 'base.py'), ('error_ellipse, rotated_covariance', O + 'base.py BaseOrientation'),
   ('as_conic, _ellipse, error_ellipse', PCA), ('ellipse, hyperbola', 'attitude/display/parametric.py'),
   ('strike_dip, trend_plunge, error_ellipse', 'attitude/display/plot/__init__.py'), ('ellipse, scale_errors', 'attitude/stereonet.py')])

NA = {'C22': 'The frontend is CoffeeScript/JavaScript whose sources and dependencies (submodules, npm packages) cannot be built here, and there is no deductive '
             'verifier for that language in the sandbox; no contract within reach connects it to the Python code.'}

TECH = ('contract-based deductive verification: verification conditions generated by symbolic execution of the real source under pre/postconditions, '
        'discharged by a polynomial normal form and z3; refuted obligations replayed on the real code')
TECHB = ('run-time checked contracts on the real functions over generated and exhaustively enumerated inputs (bounded stand-in: the functions are outside the verifier\'s reach)')


def main():
    sys.path.insert(0, V)
    import importlib
    levels = {}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for d, _, _ in P:
        i = d['id']
        if i in NA:
            continue
        m = importlib.import_module('contracts.' + i.lower())
        lv = getattr(m, 'LEVEL', 'proof')
        b = [s.name for s in m.SCENARIOS if not s.deductive]
        n = len(m.SCENARIOS) - len(b)
        note = getattr(m, 'NOTE', '')
        if not note:
            note = ('%d contract scenarios discharged for all inputs (real arithmetic)' % n) if n else 'bounded, not proved'
            if n and b:
                note += '; bounded by run-time checks: ' + ', '.join(b)
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --thorough' % i,
                           technique=TECH if lv == 'proof' else TECHB, level=lv, level_note=note))
    json.dump(dict(version=1, setup_cmd='./check --selftest', checks=checks,
                   not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
                   notes='The texts are generated by tools/mkprops.py. No hooks in /repo.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
