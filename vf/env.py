"""The installed collision checker was built without polygon support (pycrcc.Polygon always raises): a stand-in made of the
triangles of the polygon is used where the library needs one, so that the visibility code can be exercised at all."""
import numpy as np
from commonroad_dc import pycrcc
from shapely import constrained_delaunay_triangles
from shapely.geometry import Polygon


def _group(vertices, *_):
    poly = Polygon(vertices)
    g = pycrcc.ShapeGroup()
    for t in constrained_delaunay_triangles(poly).geoms:
        (ax, ay), (bx, by), (cx, cy) = list(t.exterior.coords)[:3]
        g.add_shape(pycrcc.Triangle(ax, ay, bx, by, cx, cy))
    return g


def polygons_supported():
    try:
        pycrcc.Polygon(np.array([[0.0, 0], [1, 0], [0, 1]]), [])
        return True
    except RuntimeError:
        return False


def install():
    """True if the visibility filter can be exercised"""
    if polygons_supported():
        return True
    import sys

    import dg_commons.geo  # noqa: the conversions live there

    orig = pycrcc.Polygon
    done = False
    for name, mod in list(sys.modules.items()):
        if mod is pycrcc or name.split(".")[0] == "dg_commons":
            for a, v in list(vars(mod).items()):
                if v is orig:
                    setattr(mod, a, _group)
                    done = True
    return done
