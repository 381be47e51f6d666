"""Comparing shapes without relying on the overlay of nearly coincident polygons."""


def same_shape(a, b, tol=1e-6):
    """the same area up to `tol`: outlines no further apart than tol, or a difference of negligible area"""
    if a.geom_type == b.geom_type and a.hausdorff_distance(b) <= tol and abs(a.area - b.area) <= tol * max(1.0, a.length, b.length):
        return True
    if abs(a.area - b.area) > tol * max(1.0, b.area):
        return False
    return a.buffer(1e-9).symmetric_difference(b).area <= tol * max(1.0, b.area) or a.symmetric_difference(b).area <= tol * max(1.0, b.area)
