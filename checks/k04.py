"""Pure pursuit: every case of spec/PursuitMC.tla"""
import math

import numpy as np
from geometry import SE2_from_xytheta, translation_angle_from_SE2

from dg_commons import SE2Transform
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from vf.impact import Frame
from vf.lanelib import r, wrap


def run(chk):
    rng = chk.rng
    cases = chk.emit("PursuitMC", constants=dict(Size=1 if chk.quick else 2), workers=8, invariants=["Reached", "OneLookAhead", "NeverBack", "Towards", "Emit"])
    cases.sort(key=repr)
    for c in cases:
        i, d = c["i"], c["d"]
        fr = Frame(rng)
        chk.traces += 1
        chk.evals += 1
        lane = DgLanelet([LaneCtrPoint(SE2Transform(fr.pt((x, 0)), fr.th), 1.5) for x in (0, 20, 28, 60)])
        p = i["p"]
        if p["name"] == "other":
            pp = PurePursuit(PurePursuitParam(look_ahead_minmax=(5, 13), k_lookahead=1.0, min_distance=3, length=3.0, lr=1.0))
        elif rng.random() < 0.5:
            pp = PurePursuit()
        else:
            pp = PurePursuit.from_model_geometry(VehicleGeometry.default_car(lf=1.75, lr=1.75))
        pp.update_path(lane)
        al, y = r(i["along"]), r(i["y"])
        ahead, la, cross, n2 = map(r, d[:4])
        want, wth, wtol = fr.pt((al + ahead, 0)), fr.th, 2e-3
        q = fr.pt((al, y))
        sb = r(i["b"]["s"])
        if sb:  # a bend that leaves the origin along x
            phi = 2 * math.asin(sb)
            rad = float(la) / (2 * sb)
            al = rng.uniform(0, 1.5) * abs(rad)  # the lane before does not matter
            angles = np.linspace(-float(al) / abs(rad), abs(phi) + 0.6, rng.randint(9, 25)) * math.copysign(1, sb)
            lane = DgLanelet([LaneCtrPoint(SE2Transform(fr.pt((rad * math.sin(a), rad * (1 - math.cos(a)))), fr.th + a), 1.5) for a in angles])
            pp.update_path(lane)
            q = fr.pt((0.0, 0.0))
            ahead, want, wth = rad * phi, fr.pt([float(r(g)) for g in d[4]]), fr.th + phi
        chk.count("on a bend" if sb else "straight")
        th = math.atan2(r(i["h"][1]), r(i["h"][0])) + fr.th
        if rng.random() < 0.5:  # what went on before does not matter
            same = rng.choice([(), ("along",), ("along", "speed"), ("along", "speed", "pose"), ("pose", "speed"), ("pose", "along")])
            pose = [q[0], q[1], th] if "pose" in same else [q[0] + rng.choice([0, 2]), q[1] - rng.choice([0, 1]), th + rng.choice([0, 0, 2])]
            if len(same) == 3:
                pp.update_path(DgLanelet([LaneCtrPoint(SE2Transform(fr.pt((x, 0.1 * x)), fr.th + 0.1), 1.5) for x in (0, 20, 28, 60)]))
            pp.update_pose(SE2_from_xytheta(pose), float(al) if "along" in same else 3.0)
            pp.update_speed(r(i["v"]) if "speed" in same else 17.0)
            pp.get_desired_steering()
            pp.update_path(lane)
        pp.update_speed(r(i["v"]))
        pp.update_pose(SE2_from_xytheta([q[0], q[1], th + 2 * math.pi * rng.randint(-1, 1)]), float(al))
        s, goal = pp.find_goal_point()
        t, gth = translation_angle_from_SE2(goal)
        info = f"offset {y} at {al}, heading {i['h']}, speed {i['v']}, parameters {pp.param}" + (f" bend of radius {rad}" if sb else "")
        if abs(s - al - ahead) > 4e-3 or not np.allclose(t, want, atol=4e-3) or abs(wrap(gth - wth)) > (2e-3 if sb else 1e-6):
            chk.violation("K04.goal-point", f"goal point {s} {t} {gth}, expected {ahead} ahead: {info}", c)
        exp = math.atan(float(p["len"][0] / p["len"][1]) * 2 * cross / (la * math.sqrt(n2)))
        got = pp.get_desired_steering()
        if abs(got - exp) > 3e-3:
            chk.violation("K04.steering", f"steering {got} expected {exp}: {info}", c)
    for f in (PurePursuit().get_desired_steering,):
        try:
            f()
            chk.violation("K04.undefined", "steering without a path or a pose")
        except RuntimeError:
            pass
    made = []
    for _ in range(20):  # parameters of a given vehicle
        vg = VehicleGeometry.default_car(lf=rng.uniform(1, 2), lr=rng.uniform(1, 2))
        made.append((vg, PurePursuit.from_model_geometry(vg)))
    made.append((VehicleGeometry.default_car(lf=1.75, lr=1.75), PurePursuit()))
    for vg, pp in made:  # each has its own
        chk.evals += 1
        par = pp.param
        if abs(par.length - vg.lf - vg.lr) > 1e-9 or par.lr != vg.lr:
            chk.violation("K04.parameters", f"{par} for {vg}")
    chk.sample(cases[0])
