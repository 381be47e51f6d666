"""Replicas of recorded scenarios: scenes read by spec/ScenarioMC.tla, written as CommonRoad files and loaded"""
import json
import math
import os
from copy import deepcopy

import numpy as np
from commonroad.common.file_writer import CommonRoadFileWriter, OverwriteExistingFile
from commonroad.geometry.shape import Circle, Rectangle
from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
from commonroad.scenario.obstacle import StaticObstacle as CRStatic
from commonroad.scenario.scenario import Scenario, ScenarioID, Tag
from commonroad.scenario.state import InitialState, KSState
from commonroad.scenario.trajectory import Trajectory
from shapely.geometry import Point, Polygon

from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.model_structures import BICYCLE
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.scenarios import load_commonroad_scenario
from dg_commons.sim.scenarios.convert_from_commonroad import model_agent_from_dynamic_obstacle
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
from vf.lanelib import wrap

TYPES = ["static", "car", "car", "truck", "bus", "bicycle", "pedestrian", "motorcycle", "unknown"]


def scene(rng, k):
    if k % 3 == 0:
        obs = []
        for _ in range(rng.randint(1, 7)):
            obs.append(dict(type=rng.choice(TYPES), move=rng.choice([0, 5, 15, 25, 100, 1000]), p=[round(rng.uniform(-60, 60), 2) for _ in range(2)], psi=round(rng.uniform(-3.1, 3.1), 2),
                            v=round(rng.choice([rng.uniform(0, 20), rng.uniform(-4, 0), 0.0, rng.uniform(0, 20)]), 2), l=round(rng.uniform(2, 9), 1), w=round(rng.uniform(0.6, 3), 1), turn=round(rng.uniform(-0.2, 0.2), 2)))
        return dict(kind="replica", obs=obs, ego=rng.choice([-1, 0, 1, 2]))
    n = rng.randint(1, 4)
    hs = rng.sample(range(0, 360, 30), n)
    lanes = [dict(h=h, succ=rng.choice([0, 1, 2, 2]), joined=0) for h in hs]
    psi = rng.choice(hs) + rng.choice([-40, -11, 0, 4, 22, 100, 181])
    # lanes with a common successor: all lead there
    for j in range(1, n):
        if rng.random() < 0.5 and lanes[0]["succ"] and abs((hs[j] - hs[0] + 180) % 360 - 180) <= 90:
            lanes[j]["joined"], lanes[j]["succ"] = 1, lanes[0]["succ"]
    last = rng.choice([[0, 0]] + [[j + 1, s] for j in range(n) for s in range(lanes[j]["succ"] + 1) if not (s and lanes[j]["joined"])] * 3)
    offs = sorted(abs((psi - l["h"] + 180) % 360 - 180) for l in lanes)
    if any(a == b for a, b in zip(offs, offs[1:])):
        return scene(rng, k)
    return dict(kind="lane", lanes=lanes, psi=psi, last=last)


def run(chk):
    rng = chk.rng
    scenes = [scene(rng, k) for k in range(900 if chk.quick else 6000)]
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump(scenes, open(inp, "w"))
    res = chk.emit("ScenarioMC", workers=8, env=dict(IN=inp), invariants=["Nobody", "OneName", "Aligned", "Emit"])
    assert len(res) == len(scenes)
    for o in sorted(res, key=lambda o: o["i"]):
        sc = scenes[o["i"] - 1]
        chk.traces += 1
        chk.count(sc["kind"])
        (replica if sc["kind"] == "replica" else lane)(chk, rng, sc, o["r"])
    chk.sample(scenes[0])


def rect(p, psi, l, w):
    c, s = math.cos(psi), math.sin(psi)
    return Polygon([(p[0] + c * a * l / 2 - s * b * w / 2, p[1] + s * a * l / 2 + c * b * w / 2) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))])


def straight(p, th, l, w, id, succ, pred):
    d = np.array([math.cos(th), math.sin(th)])
    n = np.array([-d[1], d[0]])
    pts = np.array([np.array(p) + x * d for x in (0, l / 2, l)])
    return Lanelet(left_vertices=pts + w * n, center_vertices=pts, right_vertices=pts - w * n, lanelet_id=id, successor=succ, predecessor=pred)


def moving(id, typ, shape, p, psi, v, turn, ends):
    """recorded vehicle: passes the given positions"""
    st = [KSState(position=np.array(q), orientation=psi + turn, velocity=v, steering_angle=0.0, time_step=t + 1) for t, q in enumerate(ends)]
    return DynamicObstacle(id, ObstacleType(typ), shape, InitialState(position=np.array(p), orientation=psi, velocity=v, time_step=0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0),
                           TrajectoryPrediction(Trajectory(1, st), shape))


def replica(chk, rng, sc, e):
    folder = os.path.join(chk.scratch, f"sc{rng.getrandbits(40)}")
    os.makedirs(os.path.join(folder, "a", "b"))
    cr = Scenario(0.1, ScenarioID.from_benchmark_id("ZAM_Test-1_1_T-1", "2020a"))
    cr.add_objects(straight((-50, 0), 0.0, 100, 2, 7, [], []))
    for j, o in enumerate(sc["obs"]):
        shape = Circle(0.4) if o["type"] == "pedestrian" else Rectangle(o["l"], o["w"])
        if o["type"] == "static":
            cr.add_objects(CRStatic(100 + j, ObstacleType.PARKED_VEHICLE, shape, InitialState(position=np.array(o["p"]), orientation=o["psi"], time_step=0, velocity=0.0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)))
        else:
            d = np.array([math.cos(o["psi"]), math.sin(o["psi"])]) * o["move"] / 100
            # in between it may be elsewhere
            mid = np.array(o["p"]) + d / 2
            turn = o["turn"] + rng.choice([0, 0, 2 * math.pi, -2 * math.pi]) if abs(o["psi"]) > 2 else o["turn"]
            if abs(o["psi"] + turn) > 2 * math.pi - 0.01:
                turn = o["turn"]
            obs = moving(100 + j, o["type"], shape, o["p"], o["psi"], o["v"], turn, [mid, np.array(o["p"]) + d])
            cr.add_objects(obs)
            if o["type"] == "pedestrian":
                walker = infer_model_from_cr_dyn_obstacle(obs, "red")
                w = walker._state
                if not isinstance(walker, PedestrianModel) or not np.allclose([w.x, w.y, w.psi, w.vx, w.vy, w.dpsi], [*o["p"], o["psi"], o["v"], 0, 0], atol=1e-6):
                    chk.violation("D01.state", f"pedestrian {o} becomes {type(walker).__name__} {w}", sc)
    name = rng.choice(["one", "Two-2"])
    CommonRoadFileWriter(cr, PlanningProblemSet(), "a", "b", "c", {Tag.URBAN}).write_to_file(os.path.join(folder, "a", "b", name + ".xml"), OverwriteExistingFile.ALWAYS)
    open(os.path.join(folder, "a", "other.xml"), "w").close()

    def bad(cl, what):
        chk.violation(f"D01.{cl}", f"{what}; {sc}", sc)

    param = rng.choice([None, SimParameters(dt=SimParameters().dt * 2)])
    seed = rng.randint(0, 9)
    ctx = get_scenario_commonroad_replica(rng.choice([name, name + ".xml"]), folder, sim_param=param, ego_player=None if sc["ego"] < 0 else PlayerName(f"P{sc['ego']}"), seed=seed)
    exp = {n: sc["obs"][j - 1] for n, j in e["players"]}
    if set(ctx.models) != set(exp) or set(ctx.players) != set(exp):
        bad("players", f"players {sorted(ctx.models)}, expected {sorted(exp)}")
        return
    for n, o in exp.items():
        m, chk.evals = ctx.models[n], chk.evals + 1
        s, g = m._state, m.model_geometry
        near = abs(s.x - o["p"][0]) < 1e-3 and abs(s.y - o["p"][1]) < 1e-3 and abs(wrap(s.psi - o["psi"])) < 1e-3 and abs(s.vx - o["v"]) < 1e-3
        if not isinstance(m, VehicleModel) or not near or abs(s.delta - o["turn"] / (0.7 * o["l"])) > 1e-2 / o["l"]:
            bad("state", f"{n} is {type(m).__name__} {s}, recorded {o}")
        if abs(g.wheelbase - 0.7 * o["l"]) > 1e-3 or abs(g.width - 0.95 * o["w"]) > 1e-3 or (g.vehicle_type == BICYCLE) != (o["type"] == "bicycle") or (g.color == "firebrick") != (n == "Ego"):
            bad("geometry", f"{n} has geometry {g}, recorded {o}")
        fp = m.get_footprint()
        if fp.centroid.distance(Point(o["p"])) > 1 + 0.1 * o["l"]:
            bad("place", f"{n} covers {fp.wkt}")
        if not isinstance(ctx.players[n], LFAgent):
            bad("agent", f"{n} is driven by {ctx.players[n]}")
    want = [sc["obs"][j - 1] for j in e["parked"] + e["fixed"]]
    got = list(ctx.dg_scenario.static_obstacles)
    if len(got) != len(want):
        bad("obstacles", f"{len(got)} obstacles, expected {len(want)}")
        return
    for s, o in zip(got, want):
        shape = Circle(0.4, np.array(o["p"])).shapely_object if o["type"] == "pedestrian" else rect(o["p"], o["psi"], o["l"], o["w"])
        if s.shape.hausdorff_distance(shape) > 1e-2:
            bad("obstacles", f"obstacle {s.shape.wkt}, recorded {o}")
        i = ctx.dg_scenario.strtree_obstacles.query(shape.centroid, predicate="within")
        if not any(ctx.dg_scenario.static_obstacles[x] is s for x in i):
            bad("index", f"obstacle {s} not found in the spatial index")
    if ctx.param != (param or SimParameters()) or ctx.seed != seed or len(ctx.missions) or len(ctx.log) or ctx.time != 0:
        bad("context", f"parameters {ctx.param} seed {ctx.seed}")
    if ctx.dg_scenario.lanelet_network is None or [l.lanelet_id for l in ctx.dg_scenario.lanelet_network.lanelets] != [7]:
        bad("network", "lanelet network of the scenario missing")
    try:
        load_commonroad_scenario("three", folder)
        bad("missing", "loaded a scenario that does not exist")
    except FileNotFoundError:
        pass


def lane(chk, rng, sc, e):
    rot, off = rng.uniform(-math.pi, math.pi) if rng.random() < 0.7 else 0.0, np.array([rng.uniform(-50, 50), rng.uniform(-50, 50)])
    n = len(sc["lanes"])
    ids = rng.sample(range(1, 60), 3 * n)
    net, ends, rows = LaneletNetwork(), {}, []
    at = lambda th, d: off + d * np.array([math.cos(th), math.sin(th)])
    nid = {}
    for j, l in enumerate(sc["lanes"]):
        nid[j] = ids[3 * j]
    succ_of = {j: [ids[3 * (l["joined"] - 1 if l["joined"] else j) + s] for s in range(1, l["succ"] + 1)] for j, l in enumerate(sc["lanes"])}
    for j, l in enumerate(sc["lanes"]):
        own = l["joined"] - 1 if l["joined"] else j
        th = rot + math.radians(l["h"])
        ends[j + 1, 0] = at(th, 9)
        if l["joined"]:  # bends towards the end of the other one
            th1 = rot + math.radians(sc["lanes"][own]["h"])
            c = np.array([at(th, -12), at(th, -4), at(th, 4), at(th1, 12)])
            w = 1.5 * np.array([[-math.sin(x), math.cos(x)] for x in (th, th, th, th1)])
            rows.append(Lanelet(left_vertices=c + w, center_vertices=c, right_vertices=c - w, lanelet_id=nid[j], successor=succ_of[j], predecessor=[]))
        else:
            rows.append(straight(at(th, -12), th, 24, 1.5, nid[j], succ_of[j], []))
        if not l["joined"]:
            for s in range(1, l["succ"] + 1):
                a = th + (s - 1) * 0.5
                start = at(th, 12)
                d = np.array([math.cos(a), math.sin(a)])
                ends[j + 1, s] = start + 22 * d
                rows.append(straight(start, a, 30, 1.5, ids[3 * j + s], [], [nid[x] for x in range(n) if ids[3 * j + s] in succ_of[x]]))
    rng.shuffle(rows)
    for l in rows:
        net.add_lanelet(l)
    # the recorded vehicle
    cross = None
    end = ends[tuple(sc["last"])] if sc["last"][0] else off + rng.choice([np.array([300.0, 300.0]), np.array([-500.0, 0.0])])
    p, psi = off + np.array([rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3)]), wrap(rot + math.radians(sc["psi"]))
    way = [p + (end - p) * x for x in ((0.3, 0.7, 1.0) if rng.random() < 0.7 else np.linspace(0.01, 1.0, rng.choice([40, 75, 130])))]
    if rng.random() < 0.5 and sc["last"][0]:  # another lane crosses where it ends
        cross = rng.choice([x for x in range(1, 90) if x not in ids])
        a = rng.uniform(-math.pi, math.pi)
        net.add_lanelet(straight(end - 3 * np.array([math.cos(a), math.sin(a)]), a, 6, 1.0, cross, [], []))
    shape = Rectangle(4.5, 2.0)
    car = moving(999, "car", shape, p, psi, 5.0, 0.0, way)
    # is the end where it is meant to be?
    found = set(net.find_lanelet_by_position([end])[0])
    want = {nid[sc["last"][0] - 1]} if sc["last"][0] and not sc["last"][1] else {ids[3 * (sc["last"][0] - 1) + sc["last"][1]]} if sc["last"][0] else set()
    if found - {cross} != want or set(net.find_lanelet_by_position([p])[0]) != set(nid.values()):
        chk.count("lane overlap")
        return

    def bad(cl, what):
        chk.violation(f"D01.{cl}", f"{what}; {sc} rotated by {rot}, ids {ids}", sc)

    chk.evals += 1
    got = infer_lane_from_dyn_obs(car, net)
    q = got.control_points
    if e["lane"] == 0:
        if len(q) != len(way) or any(not np.allclose(c.q.p, w) or abs(c.r - 1.5) > 1e-9 for c, w in zip(q, way)):
            bad("lane-of-trajectory", f"no lane leads there, got {q}")
    else:
        th = rot + math.radians(sc["lanes"][e["lane"] - 1]["h"])
        if not np.allclose(q[0].q.p, at(th, -12), atol=1e-6) or abs(wrap(q[0].q.theta - th)) > 1e-6:
            bad("lane-start", f"lane starts at {q[0]}, expected that of lane {e['lane']}")
        elif not got.is_inside_from_T2value(end):
            bad("lane-end", f"lane {[c.q for c in q]} does not lead to {end}")
    model, agent = model_agent_from_dynamic_obstacle(car, net)
    if [c.q.p.tolist() for c in agent.ref_lane.control_points] != [c.q.p.tolist() for c in q]:
        bad("agent-lane", "the agent follows another lane")
