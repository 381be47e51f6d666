"""Rigid motion, shapes moved, conversions: paths of constant twist from spec/RigidMC.tla anywhere in the world"""
import json
import math
import os
import random

import numpy as np
from geometry import SE2_from_xytheta, SE2_from_translation_angle
from shapely.geometry import LineString, MultiPolygon, Point, Polygon

from dg_commons import (SE2_apply_T2, SE2_interpolate, SE2Transform, apply_SE2_to_shapely_geo, get_distance_SE2, norm_between_SE2value, relative_pose,
                        transform_xy)
from dg_commons.geo import PoseState
from dg_commons.maps.shapes_generator import create_random_starshaped_polygon, create_star_polygon
from vf import env
from vf.lanelib import r


def matrix(q):
    return np.array([[r(q["c"]), -r(q["s"]), r(q["x"])], [r(q["s"]), r(q["c"]), r(q["y"])], [0, 0, 1]])


def run(chk):
    rng = chk.rng
    paths = sorted(chk.emit("RigidMC", constants=dict(Level=1 if chk.quick else 2), workers=4, invariants=["Rigid", "Between", "Undone", "Relative", "Backwards", "Emit"]), key=repr)
    for c in paths:
        for _ in range(3 if chk.quick else 40):
            chk.traces += 1
            one(chk, rng, c)
    shapes(chk, rng)
    if env.install():
        solids(chk, rng)
    else:
        chk.notes.append("shapes of the collision checker cannot be built here")
    chk.sample(paths[3])


def near(a, b, tol=1e-7):
    return np.allclose(np.array(a, float), np.array(b, float), atol=tol, rtol=1e-9)


def one(chk, rng, c):
    th = rng.choice([0.0, math.pi, -math.pi / 2, rng.uniform(-math.pi, math.pi)])
    W = SE2_from_xytheta((rng.choice([0.0, rng.uniform(-300, 300)]), rng.uniform(-300, 300), th))
    path = [W @ matrix(q) for q in c["path"]]
    n, q0, q1 = c["n"], path[0], path[-1]
    keep = [p.copy() for p in path]

    def bad(cl, what):
        chk.violation(f"G02.{cl}", f"{what}; {c} in frame {W.tolist()}", c)

    for k, p in enumerate(path):
        chk.evals += 1
        if not near(SE2_interpolate(q0, q1, k / n), p):
            bad("interpolate", f"{k}/{n} of the way: {SE2_interpolate(q0, q1, k / n).tolist()} expected {p.tolist()}")
        if not near(relative_pose(q0, p), np.linalg.inv(matrix(c["path"][0])) @ matrix(c["path"][k])):
            bad("relative", f"pose {k} seen from the first is {relative_pose(q0, p).tolist()}")
        if not near(q0 @ relative_pose(q0, p), p):
            bad("relative", f"relative pose {k} does not lead back")
        # length of the arc
        d = np.linalg.norm(p[:2, 2] - q0[:2, 2])
        a = abs(math.atan2(*(lambda M: (M[1, 0], M[0, 0]))(np.linalg.inv(q0) @ p)))
        arc = d if a < 1e-9 else d * (a / 2) / math.sin(a / 2)
        if abs(get_distance_SE2(q0, p) - arc) > 1e-6 or abs(get_distance_SE2(p, q0) - arc) > 1e-6:
            bad("arc", f"length of the arc to pose {k}: {get_distance_SE2(q0, p)} and back {get_distance_SE2(p, q0)}, expected {arc}")
        if abs(norm_between_SE2value(q0, p) - d) > 1e-9 or abs(norm_between_SE2value(q0, p, ord=1) - abs(p[:2, 2] - q0[:2, 2]).sum()) > 1e-9:
            bad("distance", f"distance to pose {k}: {norm_between_SE2value(q0, p)} expected {d}")
        # equal steps
        if k and abs(get_distance_SE2(q0, p) - k * get_distance_SE2(path[0], path[1])) > 1e-6:
            bad("arc", f"{k} steps are not {k} times one step")
        T = SE2Transform.from_SE2(p)
        S = SE2Transform.from_PoseState(PoseState(p[0, 2], p[1, 2], math.atan2(p[1, 0], p[0, 0]) + 2 * math.pi * rng.randint(-2, 2)))
        if not near(T.as_SE2(), p) or not near(S.as_SE2(), p) or not near(SE2Transform(T.p.tolist(), T.theta).as_SE2(), p):
            bad("conversion", f"pose {k} converted: {T} {S}")
        T.p += 1  # belongs to the transform alone
        pt = (rng.uniform(-5, 5), rng.uniform(-5, 5))
        want = (p @ np.array([*pt, 1]))[:2]
        if not near(SE2_apply_T2(p, np.array(pt)), want) or not near(SE2_apply_T2(p, pt), want):
            bad("point", f"point {pt} moved by pose {k}: {SE2_apply_T2(p, pt)} expected {want}")
        pts = [(0.0, 0.0), pt, (1.0, 2.0)]
        got = transform_xy(p, pts)
        if len(got) != 3 or not near(got[1], want) or not near(got[0], p[:2, 2]):
            bad("points", f"points {pts} moved by pose {k}: {got}")
        tri = Polygon([(0, 0), (3, 0), (0, 2)], [[(0.2, 0.2), (1, 0.2), (0.2, 1)]])
        for g in (tri, Point(pt), LineString([(0, 0), pt]), MultiPolygon([tri, Polygon([(5, 5), (6, 5), (6, 7)])])):
            m = apply_SE2_to_shapely_geo(g, p)
            if m.geom_type != g.geom_type or not near(m.centroid.coords[0], (p @ np.array([*g.centroid.coords[0], 1]))[:2]) or abs(m.area - g.area) > 1e-6 or abs(m.length - g.length) > 1e-6:
                bad("shape", f"{g.wkt} moved by pose {k}: {m.wkt}")
            if g is tri and not near(list(m.exterior.coords), transform_xy(p, list(g.exterior.coords))):
                bad("shape", f"{g.wkt} moved by pose {k}: {m.wkt}")
    # on beyond the ends
    if not near(SE2_interpolate(q0, q1, (n + 1) / n), q1 @ matrix(c["step"]), 1e-6):
        bad("interpolate", f"one step further: {SE2_interpolate(q0, q1, (n + 1) / n).tolist()}")
    if not near(SE2_interpolate(q0, q1, -1 / n), W @ matrix(c["before"]), 1e-6):
        bad("interpolate", f"one step backwards: {SE2_interpolate(q0, q1, -1 / n).tolist()}")
    if not near(relative_pose(q1, W), matrix(c["back"]), 1e-6):
        bad("relative", f"the origin seen from the last pose: {relative_pose(q1, W).tolist()}")
    if any(not (a == b).all() for a, b in zip(keep, path)):
        bad("operands", "poses were changed")


def shapes(chk, rng):
    for _ in range(100 if chk.quick else 2000):
        chk.evals += 1
        x, y, p, t = (rng.uniform(-20, 20) for _ in range(4))
        p, t = abs(p) + 1, min(abs(t) + 0.1, 0.45 * (abs(p) + 1))
        P = Polygon(create_star_polygon(x, y, p, t))
        # four spikes along the axes, corners on the diagonals in between: symmetric in both
        want = {(round(x + a, 6), round(y + b, 6)) for a, b in ((p, 0), (-p, 0), (0, p), (0, -p), (t, t), (t, -t), (-t, t), (-t, -t))}
        if {(round(a, 6), round(b, 6)) for a, b in P.exterior.coords} != want or not P.is_valid or abs(P.area - 4 * p * t) > 1e-6:
            chk.violation("G02.star", f"star at {(x, y)} with {p}, {t}: {P.wkt}", [x, y, p, t])
        n, rad = rng.randint(3, 12), rng.randint(100, 400)
        irr, spk = rng.choice([0, 0.3, 1, 2]), rng.choice([0, 0.2, 1, 3])
        random.seed(rng.random())
        pts = create_random_starshaped_polygon(x, y, rad, irr, spk, n)
        far = max(math.hypot(a - x, b - y) for a, b in pts)
        turn = sum((math.atan2(b2 - y, a2 - x) - math.atan2(b1 - y, a1 - x)) % (2 * math.pi) for (a1, b1), (a2, b2) in zip(pts, pts[1:] + pts[:1])) / (2 * math.pi)
        if len(pts) != n or far > 2 * rad + 2 or (spk == 0 and (abs(turn - 1) > 1e-6 or any(abs(math.hypot(a - x, b - y) - rad) > 2 for a, b in pts))):
            chk.violation("G02.random-star", f"{n} vertices of radius {rad}, irregularity {irr}, spikes {spk}: {pts}", [x, y, rad, irr, spk, n])


def solid(rng):
    """corners on even lattice points (unit 1/8 m), probes at corners, middles of sides, along sides, around"""
    while True:
        n = rng.randint(3, 7)
        angs = sorted(rng.sample(range(0, 360, 10), n))
        pts = [[2 * round(rng.uniform(4, 24) * f(math.radians(a))) for f in (math.cos, math.sin)] for a in angs]
        if rng.random() < 0.3:  # a shape with sides along the axes
            x, y = sorted(rng.sample(range(-24, 24), 3)), sorted(rng.sample(range(-24, 24), 3))
            pts = [[2 * a for a in c] for c in ((x[0], y[0]), (x[2], y[0]), (x[2], y[1]), (x[1], y[1]), (x[1], y[2]), (x[0], y[2]))]
        if rng.random() < 0.2:  # an outline of many corners
            pts = [[2 * round(rng.uniform(30, 50) * f(math.radians(a))) for f in (math.cos, math.sin)] for a in sorted(rng.sample(range(0, 360, 5), rng.randint(45, 65)))]
        P = Polygon(pts)
        if P.is_valid and P.area > 40 and len({tuple(p) for p in pts}) == len(pts):
            break
    if rng.random() < 0.5:
        pts.reverse()
    k = rng.randrange(len(pts))
    pts = pts[k:] + pts[:k]
    probes = [p[:] for p in pts] + [[(a + b) // 2 for a, b in zip(p, q)] for p, q in zip(pts, pts[1:] + pts[:1])]
    probes += [[rng.randint(-52, 52), rng.randint(-52, 52)] for _ in range(20)]
    return dict(kind=rng.choice(["polygon", "ring", "line"]), pts=pts, probes=probes)


def solids(chk, rng):
    """shapes handed to the collision checker: hit exactly where spec/SolidMC.tla says"""
    from commonroad_dc import pycrcc
    from shapely.geometry import LinearRing

    from dg_commons import shapely2crPolygons
    from vf.impact import Frame

    scenes = [solid(rng) for _ in range(60 if chk.quick else 1200)]
    inp = os.path.join(chk.scratch, "solids.json")
    json.dump(scenes, open(inp, "w"))
    want = {(o["s"] - 1, o["q"] - 1): o["v"] for o in chk.emit("SolidMC", workers=4, env=dict(IN=inp), invariants=["OnIsNear", "Far", "Symmetric", "Emit"])}
    for i, s in enumerate(scenes):
        chk.traces += 1
        fr = Frame(rng)
        pts = [tuple(fr.pt((x / 8, y / 8))) for x, y in s["pts"]]
        shape = Polygon(pts) if s["kind"] == "polygon" else LineString(pts) if s["kind"] == "line" else LinearRing(pts) if rng.random() < 0.5 else LineString(pts + pts[:1])
        parts = shapely2crPolygons(shape)
        for j, q in enumerate(s["probes"]):
            v = want[(i, j)]
            if v == "open":
                continue
            chk.evals += 1
            ball = pycrcc.Circle(0.02, *fr.pt((q[0] / 8, q[1] / 8)))
            if any(p.collide(ball) for p in parts) != (v == "hit"):
                chk.violation("G02.solid", f"{s['kind']} {s['pts']} in the collision checker is {'missed' if v == 'hit' else 'hit'} at {q}", s)
