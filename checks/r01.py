"""Road boundaries: networks on a grid from spec/RoadMC.tla, built in the real thing anywhere"""
import json
import os
import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet
from commonroad.scenario.scenario import Scenario, ScenarioID
from shapely.geometry import LineString, Point, Polygon

from dg_commons.maps.road_bounds import build_road_boundary_obstacle
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from vf.impact import Frame

D = {"e": (1, 0), "n": (0, 1), "w": (-1, 0), "s": (0, -1)}


def net(rng):
    size = 6
    kind = rng.choice(["random", "random", "random", "ring", "loop", "parallel"])
    lanes = []
    if kind == "ring":  # round and round
        a, b, m = rng.randint(0, 1), rng.randint(0, 1), rng.randint(2, 4)
        lanes = [dict(x=a, y=b, n=m, d="e"), dict(x=a + m, y=b, n=m, d="n"), dict(x=a + m, y=b + m, n=m, d="w"), dict(x=a, y=b + m, n=m, d="s")]
        succ = [[1, 2], [2, 3], [3, 4], [4, 1]]
        if rng.random() < 0.5 and a + m < 5:  # with an exit or entrance
            lanes.append(dict(x=a + m + 1, y=b, n=5 - a - m, d="e") if rng.random() < 0.5 else dict(x=5, y=b, n=5 - a - m, d="w"))
            succ = succ + ([[1, 5]] if lanes[-1]["d"] == "e" else [[5, 2]])
        return dict(size=size, lanes=lanes, succ=succ)
    if kind == "parallel":
        y, n = rng.randint(0, 3), rng.randint(1, 5)
        lanes = [dict(x=0, y=y + j, n=n, d="e") if rng.random() < 0.5 else dict(x=n - 1, y=y + j, n=n, d="w") for j in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            n2 = rng.randint(1, 6 - n)
            if lanes[0]["d"] == "e":
                lanes.append(dict(x=n, y=y, n=n2, d="e"))
                return dict(size=size, lanes=lanes, succ=[[1, len(lanes)]])
        return dict(size=size, lanes=lanes, succ=[])
    if kind == "loop":  # a lane that follows itself back
        x, y = rng.randint(0, 2), rng.randint(0, 3)
        lanes = [dict(x=x, y=y, n=3, d="e"), dict(x=x + 2, y=y + 1, n=3, d="w")]
        return dict(size=size, lanes=lanes, succ=rng.choice([[[1, 2], [2, 1]], [[1, 2]], []]))
    for _ in range(rng.randint(1, 6)):
        d = rng.choice("enws")
        if lanes and rng.random() < 0.6:  # continue another one
            l = rng.choice(lanes)
            x, y = l["x"] + D[l["d"]][0] * l["n"], l["y"] + D[l["d"]][1] * l["n"]
        else:
            x, y = rng.randint(0, 5), rng.randint(0, 5)
        room = {"e": 6 - x, "n": 6 - y, "w": x + 1, "s": y + 1}[d]
        if 0 <= x < 6 and 0 <= y < 6 and room > 0:
            lanes.append(dict(x=x, y=y, n=rng.randint(1, min(4, room)), d=d))
    succ = []
    for a, l in enumerate(lanes):
        for b, m in enumerate(lanes):
            end = (l["x"] + D[l["d"]][0] * l["n"], l["y"] + D[l["d"]][1] * l["n"])
            if (m["x"], m["y"]) == end and a != b and (D[l["d"]][0] != -D[m["d"]][0] or D[l["d"]][1] != -D[m["d"]][1]) and rng.random() < 0.9:
                succ.append([a + 1, b + 1])
    return dict(size=size, lanes=lanes, succ=succ)


def run(chk):
    rng = chk.rng
    nets = [n for n in (net(rng) for _ in range(260 if chk.quick else 5000)) if n["lanes"]]
    inp = os.path.join(chk.scratch, "nets.json")
    json.dump(nets, open(inp, "w"))
    for o in sorted(chk.emit("RoadMC", workers=8, env=dict(IN=inp), invariants=["Closed", "NoGate", "Ends", "Emit"]), key=lambda o: o["i"]):
        chk.traces += 1
        one(chk, rng, nets[o["i"] - 1], o)
    chk.sample(nets[0])


def neighbours(rng, own, ids):
    """what a lane may say about the lanes beside it, which is no matter here"""
    kw = {}
    for side in ("left", "right"):
        if rng.random() < 0.3 and len(ids) > 1:
            kw[f"adjacent_{side}"] = rng.choice([i for i in ids if i != own])
            kw[f"adjacent_{side}_same_direction"] = rng.random() < 0.5
    return kw


def one(chk, rng, n, o):
    fr = Frame(rng)
    buffer = rng.choice([0.05, 0.1, 0.1, 0.3, 0.0])
    SIDE = rng.choice([4.0, 4.0, 11.0, max(1.0, 6 * buffer)])
    ids = rng.sample(range(1, 100), len(n["lanes"]))
    sc = Scenario(0.1, ScenarioID.from_benchmark_id("ZAM_Test-1_1_T-1", "2020a"))
    pt = lambda x, y: np.array(fr.pt((SIDE * x, SIDE * y)))
    for a, l in enumerate(n["lanes"]):
        d = np.array(D[l["d"]], float)
        m = np.array([-d[1], d[0]])
        c = [np.array([l["x"] + 0.5, l["y"] + 0.5]) - d / 2 + d * j for j in range(l["n"] + 1)]
        sc.add_objects(Lanelet(left_vertices=np.array([pt(*(p + m / 2)) for p in c]), center_vertices=np.array([pt(*p) for p in c]), right_vertices=np.array([pt(*(p - m / 2)) for p in c]),
                               lanelet_id=ids[a], successor=[ids[q - 1] for p, q in n["succ"] if p == a + 1], predecessor=[ids[p - 1] for p, q in n["succ"] if q == a + 1],
                               **neighbours(rng, ids[a], ids)))
    extra = StaticObstacle(Polygon([pt(20, 20), pt(21, 20), pt(20, 21)]), ObstacleGeometry(m=1.0, Iz=1.0, e=0.5, color="olive"))

    def bad(cl, what):
        chk.violation(f"R01.{cl}", f"{what}; {n} buffer {buffer} cells of {SIDE} m", n)

    try:
        scen = DgScenario(scenario=sc, static_obstacles=[extra], use_road_boundaries=True, road_boundaries_buffer=buffer)
        build_road_boundary_obstacle(sc, buffer=buffer)
    except Exception as e:
        bad("built", f"road boundaries cannot be built: {e!r}")
        return
    obs = scen.static_obstacles
    if obs[0] is not extra or any(s.shape.is_empty for s in obs):
        bad("obstacles", f"obstacles {[s.shape.wkt for s in obs][:3]}")
        return
    for what, edges in (("wall", o["walls"]), ("open", o["open"])):
        for (x, y), d in edges:
            chk.evals += 1
            e = np.array(D[d], float)
            mid = np.array([x + 0.5, y + 0.5]) + e / 2
            # a short way across the edge
            way = LineString([pt(*(mid - e * 0.2)), pt(*(mid + e * 0.2))])
            hit = [k for k in scen.strtree_obstacles.query(way, predicate="intersects")]
            if bool(hit) != (what == "wall"):
                bad(what, f"{'nothing' if what == 'wall' else 'a wall'} across the edge {d} of cell {(x, y)}")
            elif hit:
                # the wall lies the buffer outside the lanes
                at = way.intersection(obs[hit[0]].shape)
                if abs(at.distance(Point(pt(*mid))) - buffer) > 1e-6:
                    bad("distance", f"wall at {at.wkt} for edge {d} of cell {(x, y)}")
    # the spatial index gives the obstacles of the list
    for k, s in enumerate(obs):
        if k not in scen.strtree_obstacles.query(s.shape, predicate="intersects"):
            bad("index", f"obstacle {k} not found")
    chk.count("networks" + (" without gates" if not n["succ"] or len({p for p, _ in n["succ"]}) == len(n["lanes"]) == len({q for _, q in n["succ"]}) else ""))
    if len(DgScenario(scenario=sc, static_obstacles=[extra]).static_obstacles) != 1:
        bad("unasked", "road boundaries although not asked for")
