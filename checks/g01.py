"""Goals: every case of spec/GoalMC.tla"""
import math
from copy import deepcopy
from decimal import Decimal

import numpy as np
from shapely.affinity import affine_transform
from shapely.geometry import Point, Polygon

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.goals import PolygonGoal, PoseGoal, RefLaneGoal
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.spacecraft import SpacecraftState
from dg_commons.sim.models.vehicle import VehicleState
from vf.geo import same_shape
from vf.impact import Frame
from vf.lanelib import r


def run(chk):
    rng = chk.rng
    cases = chk.emit("GoalMC", constants=dict(Size=1), workers=8, invariants=["AtGoal", "FarOff", "Emit"])
    cases.sort(key=repr)
    for _ in range(1 if chk.quick else 8):
        for c in cases:
            case(chk, rng, c)
    chk.sample(cases[0])


def case(chk, rng, c):
    i = c["i"]
    fr = Frame(rng)
    chk.traces += 1
    M = [fr.R[0, 0], fr.R[0, 1], fr.R[1, 0], fr.R[1, 1], fr.t[0], fr.t[1]]
    if i["kind"] in ("lane", "end"):
        sg = 1 if i["kind"] == "lane" else rng.choice([1, 1, 0.25, 3])  # the end of a lane at any scale
        bend = rng.choice([0.0, 0.0, 1 / 8, -1 / 8, 1 / 15, -1 / 40])  # along the lane a bent lane is no different

        def curve(x, da=0.0, y=0.0):
            inside = min(max(x, 0), 10)
            th, b = bend * inside, bend
            c = np.array([math.sin(th) / b, (1 - math.cos(th)) / b]) if b else np.array([inside, 0.0])
            u = np.array([math.cos(th), math.sin(th)])
            return fr.pt((c + (x - inside + da) * u + y * np.array([-u[1], u[0]])) * sg)

        lane = DgLanelet([LaneCtrPoint(SE2Transform(curve(x), fr.th + bend * x), w * sg) for x, w in ((0, 1), (4, 2), (10, 1.5))])
        g = r(i["g"])
        if i["kind"] == "lane":
            goal = RefLaneGoal(lane, g)
        else:
            goal = PolygonGoal.from_DgLanelet(lane) if sg == 1 else PolygonGoal.from_DgLanelet(lane, inflation_radius=sg)
        p, psi = curve(g, r(i["da"]), r(i["y"])), rng.uniform(-7, 7)
        shape = Polygon([curve(g, a, b) for a in (-1, 1) for b in (r(c["w"]) * a, -r(c["w"]) * a)])
    elif i["kind"] == "area":
        if i["shape"] == "hole":
            poly = Polygon([(-5, -5), (7, -5), (7, 5), (-5, 5)], [[(-1, -3), (5, -3), (5, 1), (-1, 1)]])
        else:
            poly = Polygon([(-5, -5), (7, -5), (7, -1), (-3, -1), (-3, 9), (-5, 9)])
        shape = affine_transform(poly, M)
        goal = PolygonGoal(shape)
        p, psi = fr.pt(i["p"]), rng.uniform(-7, 7)
    else:
        t0, th0 = fr.pt((0, 0)), rng.uniform(-4, 4)
        goal = PoseGoal(SE2Transform(t0, th0), r(i["tol"]))
        # the differences are given in the frame of the goal or in any other
        p = fr.pt((r(i["dx"]), r(i["dy"])))
        psi = th0 + math.atan2(r(i["turn"]["s"]), r(i["turn"]["c"])) + 2 * math.pi * rng.randint(-1, 1)
        R = np.array([[math.cos(th0), -math.sin(th0)], [math.sin(th0), math.cos(th0)]])
        shape = Polygon([R @ np.array(q) + t0 for q in ((-0.2, 0.5), (0, 0), (-0.2, -0.5), (0.8, 0))])
    v = rng.uniform(-5, 20)
    s = rng.choice([VehicleState(x=p[0], y=p[1], psi=psi, vx=v, delta=0.1), PedestrianState(x=p[0], y=p[1], psi=psi, vx=v, vy=0.0, dpsi=0.0),
                    SpacecraftState(x=p[0], y=p[1], psi=psi, vx=v, vy=v, dpsi=v)])
    keep = deepcopy(s)
    at = rng.choice([0, 3.5, Decimal("7.1")])
    asked = [("", goal), ("a copy of ", deepcopy(goal))]
    rng.shuffle(asked)
    for name, g in asked:
        chk.evals += 1
        got = bool(g.is_fulfilled(s, at))
        if got != c["d"] or bool(g.is_fulfilled(s)) != got:
            chk.violation(f"G01.{i['kind']}", f"{name}the goal is {'' if got else 'not '}fulfilled: {i}, state {s}, frame {fr.t} {fr.th}", c)
    geo = goal.get_plottable_geometry(at)
    if i["kind"] in ("lane", "end"):
        # the strip: at least the box, at most the box grown by one metre aside
        ok = shape.buffer(-1e-3).within(geo) and geo.within(shape.buffer(1.01 * (sg if i["kind"] == "end" else 1)))
    else:
        ok = same_shape(geo, shape)
    if not ok or not goal.is_static:
        chk.violation(f"G01.shape", f"shape drawn {geo.wkt} for {i}", c)
    if s != keep:
        chk.violation("G01.operands", f"state changed {keep} -> {s}", c)
