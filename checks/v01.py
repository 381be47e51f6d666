"""Pictures and animations: runs made of scenes that spec/Drawing.tla reads frame by frame, pictures taken instead of a film"""
import json
import math
import os
from decimal import Decimal
from fractions import Fraction as F

os.environ["TQDM_DISABLE"] = "1"
import matplotlib

matplotlib.use("Agg")
import numpy as np
from matplotlib import animation
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.patches import Circle
from shapely.geometry import GeometryCollection, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.maps.shapely_viz import ShapelyViz
from dg_commons.planning import Trajectory
from dg_commons.sim import SimParameters
from dg_commons.sim.agents import NPAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal
from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianModel, PedestrianState
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_animation import create_animation
from dg_commons.sim.simulator_structures import PlayerLog, SimLog

KINDS = ["car", "truck", "bicycle", "dyn", "pedestrian", "spacecraft", "rocket", "spaceship", "diffdrive", "obstacle"]
LIGHTS = ["none", "headlights", "turn_left", "turn_right", "hazard"]
RGB = {"white": (0.9, 0.9, 0.9), "yellow": (1.0, 1.0, 0.0), "red": (0.5, 0.0, 0.0), "bright red": (1.0, 0.0, 0.0), "orange": (1.0, 0.5, 0.3)}


def scene(rng, k):
    players = []
    begin = rng.choice([0, 0, 0, 700, 3000])
    for n in range(rng.randint(1, 3)):
        kind = KINDS[(k + n * 3) % len(KINDS)] if n == 0 else rng.choice(KINDS)
        ts, log = [begin], []
        for _ in range(rng.randint(1, 4)):
            ts.append(ts[-1] + rng.choice([100, 200, 250, 400, 700]))
        for t in ts:
            s = [rng.randint(-40000, 40000), rng.randint(-40000, 40000), rng.randint(-3000, 3000)]
            if kind in ("car", "truck", "bicycle", "dyn", "rocket", "spaceship"):
                s.append(rng.randint(-800, 800))
            if kind in ("rocket", "spaceship"):
                s.append(rng.choice([2000, 2000, 2300, 2700]))
            log.append(dict(t=t, s=s))
        cmds = [dict(t=t + 7 * (j > 0), lights=rng.choice(LIGHTS), acc=rng.choice([-1000, 0, 500]), f=[rng.randint(100, 2000) for _ in range(2 if kind == "rocket" else 1)])
                for j, t in enumerate(ts) if j == 0 or rng.random() < 0.7]
        first = rng.choice([0, 0, 1])  # planned from the start or only later
        ex = [dict(t=t + 7 * (j > 0)) for j, t in enumerate(ts) if j >= first and (j == first or rng.random() < 0.5)] if rng.random() < 0.4 else []
        players.append(dict(kind=kind, log=log, cmds=cmds, extra=ex, empty=2000, goal=rng.choice(["none", "fixed", "moving"])))
    return dict(players=players, dt=rng.choice([50, 100, 130, 250, 400, 1000, 1700]), view=rng.choice(["auto", "given", "player"]), speed=rng.choice([3.0, 3.0, 12.0, 40.0, -2.5, 0.0]))


def run(chk):
    rng = chk.rng
    scenes = [scene(rng, k) for k in range(60 if chk.quick else 600)]
    # something to see: at least one frame
    scenes = [s for s in scenes if max(p["log"][-1]["t"] for p in s["players"]) - min(p["log"][0]["t"] for p in s["players"]) >= min(1000, s["dt"])]
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump(scenes, open(inp, "w"))
    res = chk.emit("Drawing", workers=8, env=dict(IN=inp), invariants=["Inside", "FrontDark", "OneSide", "Alternates", "NoFuelNoFlame", "Emit"])
    by = {}
    for o in res:
        by.setdefault(o["i"], {})[o["k"]] = o
    assert len(by) == len(scenes)
    for i in sorted(by):
        chk.traces += 1
        film(chk, rng, scenes[i - 1], [by[i][k] for k in sorted(by[i])])
    shapes(chk, rng)
    chk.sample(dict(scene=scenes[0], frame=by[1][0]))


def tailored(make, x0, kind, sizes):
    """a model of the kind with axles at uneven distances"""
    geo = getattr(VehicleGeometry, "default_" + kind)(lf=sizes[0], lr=sizes[1], w_half=sizes[2])
    m = make(x0)
    return type(m)(x0=x0, vg=geo, vp=m.vp, **({} if type(m) is VehicleModel else dict(pacejka_front=m.pacejka_front, pacejka_rear=m.pacejka_rear)))


def mod(kind, s, speed=3.0):
    x, y, psi = (v / 1000 for v in s[:3])
    d = s[3] / 1000 if len(s) > 3 else 0
    m = s[4] / 1000 if len(s) > 4 else 0
    if kind in ("car", "truck", "bicycle"):
        return getattr(VehicleModel, "default_" + kind), VehicleState(x=x, y=y, psi=psi, vx=speed, delta=d)
    if kind == "dyn":
        return VehicleModelDyn.default_car, VehicleStateDyn(x=x, y=y, psi=psi, vx=speed, vy=0.5, dpsi=0.1, delta=d)
    if kind == "pedestrian":
        return PedestrianModel.default, PedestrianState(x=x, y=y, psi=psi, vx=speed, vy=0.0, dpsi=0)
    if kind == "spacecraft":
        return SpacecraftModel.default, SpacecraftState(x=x, y=y, psi=psi, vx=speed, vy=0.0, dpsi=0)
    if kind == "rocket":
        return RocketModel.default, RocketState(x=x, y=y, psi=psi, vx=speed, vy=0.0, dpsi=0, phi=d, m=m)
    if kind == "spaceship":
        return SpaceshipModel.default, SpaceshipState(x=x, y=y, psi=psi, vx=speed, vy=0.0, dpsi=0, delta=d, m=m)
    if kind == "diffdrive":
        return DiffDriveModel.default, DiffDriveState(x=x, y=y, psi=psi)
    tri = Polygon([(-1, -1), (2, 0), (-1, 2)])
    return (lambda st: DynObstacleModel(st, tri, ObstacleGeometry(m=5.0, Iz=10.0, e=0.5, color="purple"), DynObstacleParameters(vx_limits=(-100, 100), acc_limits=(-10, 10)))), \
        DynObstacleState(x=x, y=y, psi=psi, vx=speed, vy=0.0, dpsi=0)


def command(kind, c):
    f = [v / 1000 for v in c["f"]]
    if kind in ("car", "truck", "bicycle", "dyn"):
        return VehicleCommands(acc=c["acc"] / 1000, ddelta=0.0, lights=c["lights"])
    return {"pedestrian": lambda: PedestrianCommands(acc=0, dpsi=0), "spacecraft": lambda: SpacecraftCommands(0, 0), "diffdrive": lambda: DiffDriveCommands(0, 0),
            "obstacle": lambda: DynObstacleCommands(0, 0, 0), "rocket": lambda: RocketCommands(F_left=f[0], F_right=f[-1], dphi=0.0),
            "spaceship": lambda: SpaceshipCommands(thrust=f[0], ddelta=0.0)}[kind]()


class Wandering(PlanningGoal):
    """a goal area that moves along"""

    is_static = False

    def is_fulfilled(self, state, at=0):
        return False

    def get_plottable_geometry(self, at=0):
        return wander(float(at))


def wander(t):
    return Polygon([(60 + t, 0), (64 + t, 0), (62 + t, 5 + 2 * t)])


def line(n, j):
    return [(n + 100 + 3 * j + k, j * k * k) for k in range(4)]


COLOURS = ["red", "green", "blue"]


def pose(q, pts):
    c, s = math.cos(q[2]), math.sin(q[2])
    return [(q[0] + c * x - s * y, q[1] + s * x + c * y) for x, y in pts]


def rectangle(hx, hy):
    return [(-hx, -hy), (hx, -hy), (hx, hy), (-hx, hy)]


def parts(kind, m, q, d, flames):
    """black and red parts of a player: colour, corners in the world"""
    g, out = m.model_geometry, []
    if kind in ("car", "truck", "bicycle", "dyn"):
        hw, rad = g.wheel_shape
        sides = (0.0,) if kind == "bicycle" else (g.w_half, -g.w_half)
        for x, a in ((g.lf, d), (-g.lr, 0.0)):
            for y in sides:
                out.append(("black", pose(q, pose((x, y, a), rectangle(rad, hw)))))
    elif kind == "diffdrive":
        hw, rad = g.wheel_shape
        for y in (g.wheelbase / 2, -g.wheelbase / 2):
            out.append(("black", pose(q, pose((0, y, 0), rectangle(rad, hw)))))
    elif kind == "spacecraft":
        hw, hl = g.thruster_shape
        for y in (g.w_half, -g.w_half):
            out.append(("black", pose(q, pose((-g.lr, y, 0), rectangle(hl, hw)))))
    elif kind in ("rocket", "spaceship"):
        # forces in the body frame (see spec/Models): the flame points against the force
        if kind == "rocket":
            at = [((g.l_m, -g.w_half / 10), (math.sin(d), -math.cos(d))), ((g.l_m, g.w_half / 10), (math.sin(d), math.cos(d)))]
        else:
            at = [((-g.l_r, 0.0), (math.cos(d), math.sin(d)))]
        for n, (p, f) in enumerate(at):
            a = (*p, math.atan2(-f[1], -f[0]))
            out.append(("black", pose(q, pose(a, [(0, -g.w_t_half), (g.l_t_half, -g.w_t_half), (g.l_t_half, g.w_t_half), (0, g.w_t_half)]))))
            if flames:
                tip = g.l_t_half + flames[n] / 1000 / g.F_max / 2
                out.append(("red", pose(q, pose(a, [(g.l_t_half, -g.w_t_half), (tip, 0), (g.l_t_half, g.w_t_half)]))))
    return out


def corners(pts):
    pts = np.array(pts, float)
    return pts[:-1] if len(pts) > 1 and np.allclose(pts[0], pts[-1]) else pts


def same(a, b):
    """the same closed polygon, up to start and direction"""
    a, b = corners(a), corners(b)
    if len(a) != len(b):
        return False
    return any(np.allclose(a, np.roll(c, n, axis=0), atol=1e-6) for c in (b, b[::-1]) for n in range(len(b)))


def rgb(c):
    return tuple(round(v, 3) for v in to_rgba(c)[:3])


def snapshot(ax):
    polys, lamps = [], []
    for p in ax.patches:
        if isinstance(p, Circle):
            lamps.append((tuple(float(v) for v in p.center), rgb(p.get_facecolor()), p.get_visible(), p.radius))
        else:
            v = p.get_path().transformed(p.get_patch_transform()).vertices if p is not ax.patch else []
            if len(corners(v)) >= 3 and p.get_visible():
                polys.append((np.array(v), rgb(p.get_facecolor())))
    lines = [(np.array(s), rgb(np.atleast_2d(c.get_color())[k % len(np.atleast_2d(c.get_color()))]))
             for c in ax.collections if hasattr(c, "get_segments") for k, s in enumerate(c.get_segments())]
    stray = [t.get_text() for t in ax.texts if t.get_transform() != ax.transData and not ax.get_window_extent().contains(*t.get_transform().transform(t.get_position()))]
    return dict(polys=polys, lamps=lamps, texts=[(t.get_text(), t.get_position()) for t in ax.texts], lines=lines, stray=stray, xlim=ax.get_xlim(), ylim=ax.get_ylim())


def film(chk, rng, sc, pics):
    T = lambda t: Decimal(t) / 1000
    models, log, goals, names = {}, SimLog(), {}, []
    for n, p in enumerate(sc["players"]):
        name = PlayerName(rng.choice("ABCDE") + str(n))
        names.append(name)
        speed = sc["speed"] if n == 0 else 3.0
        states = [mod(p["kind"], s["s"], speed)[1] for s in p["log"]]
        make = mod(p["kind"], p["log"][0]["s"], speed)[0]
        if p["kind"] in ("car", "truck", "bicycle", "dyn"):
            kind = "car" if p["kind"] == "dyn" else p["kind"]
            base = make(states[0]).model_geometry
            models[name] = tailored(make, states[0], kind, [base.lf * rng.uniform(0.7, 1.3), base.lr * rng.uniform(0.7, 1.3), base.w_half * rng.uniform(0.8, 1.2)])
        else:
            models[name] = make(states[0])
        ex = [[(Trajectory([T(0), T(1), T(2), T(3)], [VehicleState(x=x, y=y + 50 * w, psi=0, vx=1, delta=0) for x, y in line(n, j + 1)]), COLOURS[(n + j + w) % 3])
               for w in range(1 + (n + j) % 2)] for j in range(len(p["extra"]))]
        seq = lambda ts, vs: DgSampledSequence[float]([T(t) for t in ts], vs)
        log[name] = PlayerLog(states=seq([s["t"] for s in p["log"]], states), commands=seq([c["t"] for c in p["cmds"]], [command(p["kind"], c) for c in p["cmds"]]),
                              extra=seq([e["t"] for e in p["extra"]], ex) if ex else seq([], []), info=seq([p["log"][0]["t"]], [0.0]))
        if p["goal"] == "fixed":
            goals[name] = PolygonGoal(Polygon([(70 + 10 * n, 3), (75 + 10 * n, 3), (73 + 10 * n, 9)]))
        elif p["goal"] == "moving":
            goals[name] = Wandering()
    obs = [StaticObstacle(Polygon([(-60, -60), (-55, -58), (-59, -50)]), ObstacleGeometry(m=1.0, Iz=1.0, e=0.5, color="olive"))]
    ctx = SimContext(dg_scenario=DgScenario(static_obstacles=obs), models=models, players={p: NPAgent(DgSampledSequence([0], [None])) for p in models}, missions=goals, param=SimParameters(), log=log)
    view = "auto" if sc["view"] == "auto" else [[-7, 21], [-30, 4]] if sc["view"] == "given" else names[0]
    if sc["view"] == "player" and sc["players"][0]["kind"] == "diffdrive":
        view = "auto"
    shots, real = [], animation.Animation.save

    def save(self, filename, *a, **k):
        """instead of a film: every picture of it"""
        self._init_draw()
        shots.append(snapshot(self._fig.axes[0]))
        first = True
        for frame in self.new_saved_frame_seq():
            if first and frame == 0:
                first = False
            self._draw_next_frame(frame, blit=False)
            shots.append(snapshot(self._fig.axes[0]))

    keep = repr(log)
    animation.Animation.save = save
    try:
        create_animation(os.path.join(chk.scratch, "film"), ctx, dt=sc["dt"], plot_limits=view)
    except Exception as e:
        chk.violation("V01.film", f"animation fails: {e!r}; {sc}", sc)
        return
    finally:
        animation.Animation.save = real
        plt.close("all")

    def bad(cl, what, n):
        chk.violation(f"V01.{cl}", f"picture {n} at {pics[min(n, len(pics) - 1)]['t']} ms: {what}; {sc}", sc)

    if repr(log) != keep:
        bad("operands", "the log has changed", 0)
    # matplotlib draws the first frame as initial picture too when asked to; a last frame may be lost to rounding
    want = pics[0]["frames"] + 1
    if len(shots) not in (want, want + 1, want - 1) or len(shots) < 2:
        bad("frames", f"{len(shots)} pictures expected {want}", 0)
        return
    if len(shots) == want + 1:  # the initialisation draws the first frame as well
        shots = shots[1:]
    for n, shot in enumerate(shots):
        chk.evals += 1
        picture(chk, sc, ctx, names, models, pics[n], shot, view, n, bad)


def picture(chk, sc, ctx, names, models, pic, shot, view, n, bad):
    r = lambda v: v[0] / v[1] / 1000
    t = pic["t"] / 1000
    want = [("olive", list(ctx.dg_scenario.static_obstacles[0].shape.exterior.coords))]
    texts = dict(shot["texts"])
    lines = []
    for j, (name, p, m) in enumerate(zip(names, sc["players"], pic["pic"])):
        s = [r(v) for v in m["s"]]
        q, model = s[:3], models[name]
        outline = model.shape.exterior.coords if p["kind"] == "obstacle" else model.model_geometry.outline
        want.append((model.model_geometry.color, pose(q, [tuple(c)[:2] for c in outline])))
        want.extend(parts(p["kind"], model, q, s[3] if len(s) > 3 else 0, m["flames"]))
        if p["kind"] != "obstacle":
            if name not in texts or not np.allclose(texts[name], q[:2], atol=1e-6):
                bad("name", f"name of {name} at {texts.get(name)}, expected {q}", n)
        # lamps
        if m["lamps"]:
            c, sn = math.cos(q[2]), math.sin(q[2])
            hx, hy = max(x for x, _ in outline), max(y for _, y in outline)
            back = min(x for x, _ in outline)
            for lamp, col in m["lamps"].items():
                found = []
                for ctr, rgb_, vis, rad in shot["lamps"]:
                    dx, dy = ctr[0] - q[0], ctr[1] - q[1]
                    x, y = c * dx + sn * dy, -sn * dx + c * dy
                    if abs(x - (hx if "front" in lamp else back)) < 1e-6 and (y > 0) == ("left" in lamp) and abs(y) < hy and vis and rad > 0:
                        found.append(rgb_)
                if len(found) != 1 or (col != "?" and found[0] != rgb(RGB[col])):
                    bad("lamps", f"{lamp} of {name} shines {found}, expected {col}", n)
        if m["extra"]:
            lines.extend(([(x, y + 50 * w) for x, y in line(j, m["extra"])], COLOURS[(j + m["extra"] - 1 + w) % 3]) for w in range(1 + (j + m["extra"] - 1) % 2))
        goal = ctx.missions.get(name)
        if isinstance(goal, PolygonGoal):
            want.append((model.model_geometry.color, list(goal.goal.exterior.coords)))
        elif goal is not None and n > 0:
            want.append((model.model_geometry.color, list(wander(t).exterior.coords)))
    lit = sum(4 for m in pic["pic"] if m["lamps"])
    if len(shot["lamps"]) != lit:
        bad("lamps", f"{len(shot['lamps'])} lamps expected {lit}", n)
    left = list(shot["polys"])
    for col, pts in want:
        hit = next((k for k, (v, c) in enumerate(left) if c == rgb(col) and same(v, pts)), None)
        if hit is None:
            bad("shapes", f"nothing {col} at {np.round(pts, 3).tolist()[:6]}", n)
        else:
            left.pop(hit)
    if left:
        bad("leftovers", f"unexpected {[(c, np.round(v, 3).tolist()[:4]) for v, c in left]}", n)
    if len(shot["lines"]) != len(lines) or any(not any(a.shape == (4, 2) and np.allclose(a, b) and ca == rgb(cb) for a, ca in shot["lines"]) for b, cb in lines):
        bad("extra", f"lines {[(a.tolist(), c) for a, c in shot['lines']]} expected {lines}", n)
    if shot["stray"]:
        bad("time", f"outside of the picture: {shot['stray']}", n)
    if n > 0:
        tt = [x for x in texts if x.startswith("t =")]
        if len(tt) != 1 or abs(float(tt[0].split()[2].rstrip("s")) - t) > 0.0501:
            bad("time", f"time shown as {tt}", n)
    lim = [shot["xlim"], shot["ylim"]]
    if view == "auto":
        exp = [[r(b) for b in v] for v in pic["view"]]
    elif isinstance(view, list):
        exp = view
    else:
        exp = None
        s = [r(v) for v in pic["pic"][0]["s"]]
        if not all(lo < v < hi for v, (lo, hi) in zip(s, lim)):
            bad("view", f"player {s} not in view {lim}", n)
        # it looks ahead
        ahead = [(lo + hi) / 2 - v for v, (lo, hi) in zip(s, lim)]
        v = sc["speed"]
        along = math.copysign(1, v) * (ahead[0] * math.cos(s[2]) + ahead[1] * math.sin(s[2]))
        straight = math.hypot(*ahead) <= along + 1e-6
        if any(abs(hi - lo - 70) > 1e-6 for lo, hi in lim) or (math.hypot(*ahead) > 1e-6 if v == 0 else along <= 0 or not straight and abs(v) < 15):
            bad("view", f"view {lim} around {s}", n)
    if exp is not None and not np.allclose(lim, exp, atol=1e-6):
        bad("view", f"view {lim} expected {exp}", n)


SIDE, BLOCKS = 20.0, 3


def tree(rng, blocks, depth=0):
    """a shape as a tree, in blocks of its own"""
    kind = rng.choice(["collection", "polygons", "lines", "points", "polygon", "holed", "line", "point"] + ["collection"] * (depth == 0))
    if not blocks:
        return None
    if kind == "collection" and depth < 2:
        parts = [tree(rng, blocks, depth + 1) for _ in range(rng.randint(1, 3))]
    elif kind in ("polygons", "lines", "points"):
        leaf = {"polygons": ["polygon", "holed"], "lines": ["line"], "points": ["point"]}[kind]
        parts = [dict(kind=rng.choice(leaf), block=blocks.pop(), parts=[]) for _ in range(min(len(blocks), rng.randint(1, 3)))]
    else:
        return dict(kind=kind if kind != "collection" else "polygon", block=blocks.pop(), parts=[])
    return dict(kind=kind, block=[0, 0], parts=[p for p in parts if p])


def build(t):
    x, y = (3 * SIDE * b for b in t["block"])
    box = [(x, y), (x + 3 * SIDE, y), (x + 3 * SIDE, y + 3 * SIDE), (x, y + 3 * SIDE)]
    hole = [(x + SIDE, y + SIDE), (x + 2 * SIDE, y + SIDE), (x + 2 * SIDE, y + 2 * SIDE), (x + SIDE, y + 2 * SIDE)]
    kind = t["kind"]
    if kind == "polygon":
        return Polygon(box)
    if kind == "holed":
        return Polygon(box, [hole])
    if kind == "line":
        return LineString([(x, y + 1.5 * SIDE), (x + 3 * SIDE, y + 1.5 * SIDE)])
    if kind == "point":
        return Point(x + 1.5 * SIDE, y + 1.5 * SIDE)
    return {"collection": GeometryCollection, "polygons": MultiPolygon, "lines": MultiLineString, "points": MultiPoint}[kind]([build(p) for p in t["parts"]])


def shapes(chk, rng):
    trees = []
    for _ in range(30 if chk.quick else 300):
        blocks = [[a, b] for a in range(BLOCKS) for b in range(BLOCKS)]
        rng.shuffle(blocks)
        trees.append(tree(rng, blocks))
    inp = os.path.join(chk.scratch, "trees.json")
    json.dump(trees, open(inp, "w"))
    for o in sorted(chk.emit("ShapesMC", workers=4, env=dict(IN=inp), invariants=["Complete", "Emit"]), key=lambda o: o["i"]):
        t = trees[o["i"] - 1]
        chk.traces, chk.evals = chk.traces + 1, chk.evals + 1
        chk.count(f"shape: {t['kind']}")
        fig = plt.figure(figsize=(3, 3), dpi=60)
        ax = fig.add_axes([0, 0, 1, 1])
        ax.set_xlim(0, 3 * SIDE * BLOCKS), ax.set_ylim(0, 3 * SIDE * BLOCKS)
        ax.axis("off")
        other = rng.choice([None, plt.figure])  # whatever is current does not matter
        other = other and other().add_axes([0, 0, 1, 1])
        try:
            ShapelyViz(ax).add_shape(build(t), color="red", **rng.choice([{}, dict(zorder=32)]))
            ax.set_xlim(0, 3 * SIDE * BLOCKS), ax.set_ylim(0, 3 * SIDE * BLOCKS)
            fig.canvas.draw()
            img = np.asarray(fig.canvas.buffer_rgba())[::-1]
        except Exception as e:
            chk.violation("V01.shape-kinds", f"{t} cannot be drawn: {e!r}", t)
            continue
        finally:
            plt.close(fig)
            if other is not None:
                plt.close(other.figure)
                if other.collections or other.patches or other.lines:
                    chk.violation("V01.shape-kinds", f"{t} is drawn elsewhere", t)
        n = 3 * BLOCKS
        got = set()
        for a in range(n):
            for b in range(n):
                y, x = int((b + 0.5) * img.shape[0] / n), int((a + 0.5) * img.shape[1] / n)
                around = img[y - 2:y + 3, x - 2:x + 3].astype(int)
                if ((around[..., 0] - around[..., 1]) > 90).any():
                    got.add((a, b))
        if got != {tuple(c) for c in o["canvas"]}:
            chk.violation("V01.shape-area", f"{t}: painted cells {sorted(got)}, expected {sorted(map(tuple, o['canvas']))}", t)
