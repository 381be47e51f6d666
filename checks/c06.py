"""Contacts of bodies of any outline: cells and walls of spec/ContactMC.tla, resolved for real"""
import json
import math
import os
from decimal import Decimal

import numpy as np
from shapely.geometry import LinearRing, LineString, Polygon, box
from shapely.ops import unary_union

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.agents import NPAgent
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException, compute_impact_geometry
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel, DynObstacleState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from vf.impact import Frame

SCALE = 0.5
P, Q = PlayerName("P"), PlayerName("Q")


def union(cells, off=(0, 0)):
    return unary_union([box(2 * x + off[0], 2 * y + off[1], 2 * x + 2 + off[0], 2 * y + 2 + off[1]) for x, y in cells])


def blob(rng):
    """cells in one piece without holes"""
    while True:
        cells = {(rng.randint(0, 3), rng.randint(0, 3))}
        for _ in range(rng.randint(0, 8)):
            x, y = rng.choice(sorted(cells))
            dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            if 0 <= x + dx <= 3 and 0 <= y + dy <= 3:
                cells.add((x + dx, y + dy))
        g = union(cells)
        if isinstance(g, Polygon) and not g.interiors and g.is_valid:
            return sorted(cells)


def wall(rng):
    x, y = 2 * rng.randint(-2, 5) + 1, 2 * rng.randint(-2, 5) + 1
    if rng.random() < 0.2:
        w, h = 2 * rng.randint(1, 5), 2 * rng.randint(1, 5)
        pts = [(x + k, y) for k in range(0, w, 2)] + [(x + w, y + k) for k in range(0, h, 2)] + [(x + w - k, y + h) for k in range(0, w, 2)] + [(x, y + h - k) for k in range(0, h, 2)]
        return pts + pts[:1]
    pts, d = [(x, y)], rng.choice([(2, 0), (-2, 0), (0, 2), (0, -2)])
    bend = rng.choice([0, 0, 0.15, 0.5])
    for _ in range(rng.randint(1, 8) + 4 * (bend == 0)):
        if rng.random() < bend:
            d = rng.choice([(2, 0), (-2, 0), (0, 2), (0, -2)])
        q = (pts[-1][0] + d[0], pts[-1][1] + d[1])
        if q in pts:
            break
        pts.append(q)
    return pts if len(pts) > 1 else wall(rng)


def scene(rng):
    kind = rng.choice(["body", "body", "wall"])
    small = rng.random() < 0.25
    return dict(a=blob(rng), b=([(0, 0)] if small else blob(rng)) if kind == "body" else [], off=[2 * rng.randint(-3, 3) + 1, 2 * rng.randint(-3, 3) + 1], wall=wall(rng) if kind == "wall" else [])


def run(chk):
    rng = chk.rng
    scenes = [scene(rng) for _ in range(4000 if chk.quick else 40000)]
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump(scenes, open(inp, "w"))
    res = chk.emit("ContactMC", workers=8, env=dict(IN=inp), invariants=["Even", "Symmetric", "NotBoth", "Emit"])
    assert len(res) == len(scenes)
    seen = {}
    for o in sorted(res, key=lambda o: o["i"]):
        chk.traces += 1
        chk.count(("wall " if scenes[o["i"] - 1]["wall"] else "body ") + o["verdict"])
        one(chk, rng, scenes[o["i"] - 1], o)
    for _ in range(25 if chk.quick else 400):
        simulated(chk, rng)
    chk.sample(dict(scene=scenes[0], contact=res[0]))


def one(chk, rng, sc, o):
    fr = Frame(rng)
    if rng.random() < 0.3:
        fr.th, fr.t, fr.R = 0.0, np.zeros(2), np.eye(2)
    # the second body lies on odd coordinates: moved sideways by less than a cell nothing changes but where the crossings are
    sq = [rng.choice([0.0, 0.0, 0.5, 0.98, 0.998, 0.9999, -0.98, -0.998, -0.9999]) for _ in range(2)]
    if rng.random() < 0.4:
        sq = [0.0, 0.0]
    odd = lambda u: abs(u % 2 - 1) < 1e-9
    sx = lambda p, b: [u + d if b else u for u, d in zip(p, sq)]
    W = lambda p, b=False: fr.pt([SCALE * u for u in sx(p, b)])
    X = lambda p: fr.pt([SCALE * (u + d * odd(u)) for u, d in zip(p, sq)])  # a crossing
    shp = lambda g, b=False: Polygon([W(p, b) for p in g.exterior.coords])
    a = shp(union(sc["a"]))
    b = (LinearRing if sc["wall"][0] == sc["wall"][-1] else LineString)([W(p, True) for p in sc["wall"]]) if sc["wall"] else shp(union(sc["b"], sc["off"]), True)

    def bad(cl, what):
        chk.violation(f"C06.{cl}", f"{what}; {o['verdict']}, crossings {o['cross']}: {a.wkt} and {b.wkt}", sc)

    assert a.intersects(b) == (o["verdict"] != "apart"), (sc, o)
    if o["verdict"] == "apart":
        return
    chk.evals += 1
    ca = W([o["a"][0] / o["a"][2], o["a"][1] / o["a"][2]])
    want = None
    if o["verdict"] == "two":
        p, q = (X(c) for c in o["cross"])
        n = np.array([-(q - p)[1], (q - p)[0]]) / np.linalg.norm(q - p)
        s = np.dot((p + q) / 2 - ca, n)
        want = ((p + q) / 2, [n * np.sign(s)] if abs(s) > 1e-9 else [n, -n])
    elif o["verdict"] == "inside" and not sc["wall"]:
        cb = W([o["b"][0] / o["b"][2], o["b"][1] / o["b"][2]], True)
        d = np.linalg.norm(cb - ca)
        want = (cb, [(cb - ca) / d]) if d > 1e-9 else (cb, [])
    try:
        n, p = compute_impact_geometry(a, b)
        p = np.array(p.coords[0])
        if not np.isfinite(n).all() or abs(np.linalg.norm(n) - 1) > 1e-9 or not np.isfinite(p).all():
            bad("sane", f"normal {n} point {p}")
            return
        if want and (not np.allclose(p, want[0], atol=1e-6) or (not any(np.allclose(n, m, atol=1e-6) for m in want[1]))):
            bad("geometry", f"point {p} normal {n}, expected {want}")
            return
        if np.dot(n, p - ca) < -1e-9:
            bad("sane", f"normal {n} at {p} points inwards")
        x0, y0, x1, y1 = unary_union([a, b] if not sc["wall"] else [a]).bounds
        if not (x0 - 0.5 <= p[0] <= x1 + 0.5 and y0 - 0.5 <= p[1] <= y1 + 0.5):
            bad("sane", f"point {p} is not near the bodies")
    except CollisionException as e:
        n = None
        if want and want[1]:
            bad("unresolved", f"contact not resolved: {e}")
            return
    except Exception as e:
        bad("crash", f"{e!r}")
        return
    if n is not None and abs(np.dot(n, p - ca)) < 1e-6:
        return  # either direction will do
    # the same contact between models
    A, B = model(rng, a), None if sc["wall"] or rng.random() < 0.3 else model(rng, b)
    before = [repr(m.get_state()) for m in (A, B) if m]
    vel = [m.get_velocity(False) for m in (A, B) if m]
    obst = StaticObstacle(b, ObstacleGeometry.default_static(e=rng.choice([0.0, 0.3, 1.0])))
    try:
        if B:
            rep = resolve_collision(P, Q, SimContext(dg_scenario=DgScenario(), models={P: A, Q: B}, players={P: NPAgent(DgSampledSequence([0], [None])), Q: NPAgent(DgSampledSequence([0], [None]))}, param=SimParameters(), time=Decimal("1.5")))
        else:
            rep = resolve_collision_with_environment(P, A, obst, Decimal("1.5"))
    except CollisionException as e:
        if n is not None:
            bad("unresolved", f"{e} although the geometry is known")
        if before != [repr(m.get_state()) for m in (A, B) if m]:
            bad("untouched", "states changed by a collision that could not be resolved")
        return
    except Exception as e:
        bad("crash", f"models: {e!r}")
        return
    if n is None:
        bad("unresolved", "resolved although the geometry is unknown")
        return
    after = [m.get_velocity(False) for m in (A, B) if m]
    at = lambda m, v: v[0] + v[1] * np.array([-(p - m.get_pose()[:2, 2])[1], (p - m.get_pose()[:2, 2])[0]])
    rel = lambda vs: at(A, vs[0]) - (at(B, vs[1]) if B else 0)
    v0, v1 = np.dot(rel(vel), n), np.dot(rel(after), n)
    if rep is None:
        if v0 > 1e-9 or before != [repr(m.get_state()) for m in (A, B) if m]:
            bad("separating", f"nothing done although they approach with {v0}")
        return
    e = min(A.og.e, B.og.e if B else obst.geometry.e)
    if v0 < -1e-9 or abs(v1 + e * v0) > 1e-7 * (1 + abs(v0)):
        bad("restitution", f"approach {v0} becomes {v1} with restitution {e}")
    if not np.allclose(rep.impact_normal, n) or not np.allclose(rep.impact_point.coords[0], p) or rep.at_time != Decimal("1.5") or set(rep.players) != ({P, Q} if B else {P, PlayerName("Env")}):
        bad("report", f"{rep}")
    t = np.array([-n[1], n[0]])
    for m, u, w in zip((A, B), vel, after):
        dp = m.og.m * (w[0] - u[0])
        r = p - m.get_pose()[:2, 2]
        if abs(np.dot(dp, t)) > 1e-6 or abs(m.og.Iz * (w[1] - u[1]) - (r[0] * dp[1] - r[1] * dp[0])) > 1e-6:
            bad("impulse", f"velocity {u} becomes {w}: not from an impulse along {n} at {p}")
    if B and not np.allclose(A.og.m * (after[0][0] - vel[0][0]), -B.og.m * (after[1][0] - vel[1][0]), atol=1e-6):
        bad("momentum", f"{vel} become {after}")
    for name, m, u, w in zip((P, Q), (A, B), vel, after):
        r = rep.players[name]
        if not np.allclose(r.velocity[0], u[0]) or not np.allclose(r.velocity_after[0], w[0]) or abs(r.velocity[1] - u[1]) + abs(r.velocity_after[1] - w[1]) > 1e-9 \
                or abs(r.energy_delta - 0.5 * m.og.m * (np.dot(w[0], w[0]) - np.dot(u[0], u[0]))) > 1e-6 * (1 + abs(r.energy_delta)) or not r.footprint.equals(m.get_footprint()):
            bad("report", f"of {name}: {r} for {u} and {w}")


def model(rng, g):
    """a free body of that outline in that place; its heading is its own"""
    psi = rng.uniform(-math.pi, math.pi)
    c = np.array(g.centroid.coords[0]) + (np.array([rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3)]) if rng.random() < 0.5 else 0)
    R = np.array([[math.cos(psi), -math.sin(psi)], [math.sin(psi), math.cos(psi)]])
    st = DynObstacleState(x=c[0], y=c[1], psi=psi, vx=rng.uniform(-5, 5), vy=rng.uniform(-5, 5), dpsi=rng.uniform(-2, 2))
    return DynObstacleModel(st, Polygon([tuple(R.T @ (np.array(q) - c)) for q in g.exterior.coords]), ObstacleGeometry(m=rng.uniform(1, 50), Iz=rng.uniform(1, 50), e=rng.choice([0.0, 0.5, 1.0])),
                            DynObstacleParameters(vx_limits=(-100, 100), acc_limits=(-10, 10)))


def simulated(chk, rng):
    """a vehicle that drives over the end of a wall: not resolved, reported all the same, and the run goes on to its end"""
    chk.traces += 1
    fr = Frame(rng)
    s0 = fr.pt((0, 0))
    car = VehicleModel.default_car(VehicleState(x=s0[0], y=s0[1], psi=fr.th, vx=rng.uniform(4, 8), delta=0.0))
    x = rng.uniform(6, 9)
    crossing = rng.random() < 0.3
    y0 = rng.uniform(-0.5, 0.5)
    pts = [(x, y0), (x, y0 + 30)] if not crossing else [(x, -20), (x, 20)]
    w = LineString([fr.pt(p) for p in pts])
    ctx = SimContext(dg_scenario=DgScenario(static_obstacles=[StaticObstacle(w)]), models={P: car}, players={P: NPAgent(DgSampledSequence[VehicleCommands]([0], [VehicleCommands(0, 0)]))},
                     param=SimParameters(dt=Decimal("0.05"), dt_commands=Decimal("0.1"), sim_time_after_collision=Decimal("0.5"), max_sim_time=Decimal("4")))
    what = f"vehicle against {w.wkt} from {s0} heading {fr.th}"
    try:
        Simulator().run(ctx)
    except Exception as e:
        chk.violation("C06.crash", f"{what}: {e!r}", what)
        return
    reps = ctx.collision_reports
    if not reps or any(P not in r.players for r in reps) or ctx.first_collision_ts != reps[0].at_time:
        chk.violation("C06.reported", f"{what}: first collision at {ctx.first_collision_ts}, reports {[(r.at_time, list(r.players)) for r in reps]}", what)
    elif crossing != (reps[0].players[P] is not None):
        chk.violation("C06.reported", f"{what}: first report {reps[0]}", what)
    elif not crossing and (reps[0].impact_point is not None or reps[0].impact_normal is not None):
        chk.violation("C06.reported", f"{what}: report without data {reps[0]}", what)
    last = ctx.log[P].states.get_end()
    if reps and not (ctx.first_collision_ts + Decimal("0.45") <= last <= ctx.first_collision_ts + Decimal("0.6")):
        chk.violation("C06.goes-on", f"{what}: collision at {ctx.first_collision_ts}, end at {last}", what)
    if not np.isfinite(ctx.models[P].get_state().as_ndarray()).all():
        chk.violation("C06.sane", f"{what}: {ctx.models[P].get_state()}", what)
