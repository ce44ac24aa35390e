"""Stand-ins for the drawing libraries: they only keep what they are given.

Contracts used in place of the bodies: matplotlib.path.Path(vertices, codes), matplotlib.patches.PathPatch / Polygon,
shapely.geometry.Polygon(shell, holes) and cartopy.feature.ShapelyFeature(geometries, crs) hold the positions they
are given, in order; Polygon closes a ring by itself."""
import types

import numpy as np

from .expr import unsupported
from .npx import sym


def positions(v):
    a = np.array([list(i) for i in v], dtype=object)
    if a.ndim != 2 or a.shape[1] != 2:
        raise ValueError("'vertices' must be 2D with shape (N, 2), not %r" % (a.shape,))
    return sym(a)


class Path(object):
    STOP, MOVETO, LINETO, CURVE3, CURVE4, CLOSEPOLY = 0, 1, 2, 3, 4, 79

    def __init__(self, vertices, codes=None, *a, **k):
        if a or k:
            unsupported('Path with options')
        self.vertices = positions(vertices)
        self.codes = None if codes is None else [int(c) for c in codes]
        if codes is not None and len(self.codes) != len(self.vertices):
            raise ValueError("'codes' must be a 1D list or array with the same length of 'vertices'")
        if codes is not None and len(self.codes) and self.codes[0] != self.MOVETO:
            raise ValueError("The first element of 'code' must be equal to 'MOVETO' (1)")


class PathPatch(object):
    def __init__(self, path, **kw):
        self.path, self.kw = path, kw

    def get_path(self):
        return self.path


class Polygon(object):
    def __init__(self, xy, closed=True, **kw):
        self.kw = kw
        self.set_xy(xy)

    def set_xy(self, xy):
        self.xy = positions(xy)

    def get_xy(self):
        return self.xy


class Ring(object):
    def __init__(self, v):
        self.coords = positions(v)


class Area(object):
    def __init__(self, shell, holes=None):
        self.exterior = Ring(shell)
        self.interiors = [Ring(h) for h in holes or []]


class Feature(object):
    def __init__(self, geometries, crs, **kw):
        self.geoms, self.crs = list(geometries), crs

    def geometries(self):
        return iter(self.geoms)


class Axes(object):
    """stand-in for a matplotlib axes, in proofs and in run-time contracts alike"""

    def __init__(self):
        self.patches = []
        self.lines = []

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def plot(self, *a, **k):
        self.lines.append((a, k))


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


def standins():
    patches = module('matplotlib.patches', PathPatch=PathPatch, Polygon=Polygon)
    crs = module('cartopy.crs', PlateCarree=lambda *a, **k: ('PlateCarree', a, k))
    feature = module('cartopy.feature', ShapelyFeature=Feature)
    return {'matplotlib.path': module('matplotlib.path', Path=Path), 'matplotlib.patches': patches,
            'cartopy': module('cartopy', crs=crs, feature=feature), 'cartopy.crs': crs, 'cartopy.feature': feature,
            'shapely.geometry': module('shapely.geometry', Polygon=Area)}


def load(ctx, name):
    """a module of the package; in proofs, with the stand-ins"""
    if not ctx.symbolic:
        return ctx.mod(name)
    if not hasattr(ctx, 'drawn'):
        from . import load as L
        ctx.drawn = L.SymWorld(standins())
    return ctx.drawn.load(name)
