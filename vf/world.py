"""Random but reproducible worlds built from the real models of dg-commons."""
from dataclasses import dataclass, field
from decimal import Decimal as D
from itertools import combinations
from math import pi
from time import perf_counter

import numpy as np
from shapely.geometry import Polygon, box, Point, LineString

from dg_commons import PlayerName, DgSampledSequence, fd
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.agent import Agent, NPAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal
from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianModel, PedestrianState
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import IdObsFilter
from dg_commons.sim.simulator import SimContext

KINDS = ("car_kin", "bike_kin", "truck_kin", "car_dyn", "bike_dyn", "truck_dyn", "pedestrian", "spacecraft", "spaceship",
         "diffdrive", "dynobs", "rocket")


def make_model(kind, rng, x, y, psi, speed):
    if kind.endswith("_kin"):
        st = VehicleState(x=x, y=y, psi=psi, vx=speed, delta=rng.uniform(-0.3, 0.3))
        f = dict(car=VehicleModel.default_car, bike=VehicleModel.default_bicycle, truck=VehicleModel.default_truck)
        return f[kind[:-4]](st)
    if kind.endswith("_dyn"):
        st = VehicleStateDyn(x=x, y=y, psi=psi, vx=speed, delta=rng.uniform(-0.2, 0.2))
        f = dict(car=VehicleModelDyn.default_car, bike=VehicleModelDyn.default_bicycle, truck=VehicleModelDyn.default_truck)
        return f[kind[:-4]](st)
    if kind == "pedestrian":
        return PedestrianModel.default(PedestrianState(x=x, y=y, psi=psi, vx=min(speed, 3)))
    if kind == "spacecraft":
        return SpacecraftModel.default(SpacecraftState(x=x, y=y, psi=psi, vx=speed, vy=rng.uniform(-1, 1), dpsi=rng.uniform(-0.3, 0.3)))
    if kind == "spaceship":
        return SpaceshipModel.default(SpaceshipState(x=x, y=y, psi=psi, vx=speed, vy=rng.uniform(-1, 1), dpsi=rng.uniform(-0.3, 0.3),
                                                     delta=0.1, m=2.5))
    if kind == "diffdrive":
        return DiffDriveModel(DiffDriveState(x=x, y=y, psi=psi), vg=DiffDriveGeometry.default(), vp=DiffDriveParameters.default())
    if kind == "dynobs":
        w, h = rng.uniform(0.5, 2), rng.uniform(0.5, 2)
        return DynObstacleModel(DynObstacleState(x=x, y=y, psi=psi, vx=speed, vy=rng.uniform(-1, 1), dpsi=rng.uniform(-0.3, 0.3)),
                                shape=Polygon([(-w, -h), (w, -h), (w, h), (-w, h)]),
                                og=ObstacleGeometry(m=rng.uniform(5, 500), Iz=rng.uniform(5, 500), e=rng.choice([0.1, 0.5, 0.9])),
                                op=DynObstacleParameters(vx_limits=(-15, 15), acc_limits=(-10, 10)))
    if kind == "rocket":
        return RocketModel.default(RocketState(x=x, y=y, psi=psi, vx=speed * np.cos(psi), vy=speed * np.sin(psi),
                                               dpsi=rng.uniform(-0.2, 0.2), phi=0.1, m=2.5))
    raise ValueError(kind)


def random_command(model, rng, scale=1.0):
    u = lambda a, b: rng.uniform(a, b) * scale
    if isinstance(model, VehicleModel):
        return VehicleCommands(acc=u(-4, 4), ddelta=u(-0.6, 0.6))
    if isinstance(model, PedestrianModel):
        return PedestrianCommands(acc=u(-2, 2), dpsi=u(-1.5, 1.5))
    if isinstance(model, SpacecraftModel):
        return SpacecraftCommands(acc_left=u(-4, 4), acc_right=u(-4, 4))
    if isinstance(model, SpaceshipModel):
        return SpaceshipCommands(thrust=u(-1, 3), ddelta=u(-0.5, 0.5))
    if isinstance(model, DiffDriveModel):
        return DiffDriveCommands(omega_l=u(-6, 6), omega_r=u(-6, 6))
    if isinstance(model, DynObstacleModel):
        return DynObstacleCommands(acc_x=u(-4, 4), acc_y=u(-4, 4), acc_psi=u(-1, 1))
    if isinstance(model, RocketModel):
        return RocketCommands(F_left=u(0, 2.5), F_right=u(0, 2.5), dphi=u(-0.5, 0.5))
    raise ValueError(model)


class ReactiveAgent(Agent):
    """Reproducible agent: its command is a function of (its private generator, what it observes)"""

    def __init__(self, model, seed, extra_every=3):
        import random

        self.model_like, self.rng, self.n, self.extra_every = model, random.Random(seed), 0, extra_every
        self.kind = type(model)
        self.trail = [["trail"]]

    def on_episode_init(self, o):
        self.me = o.my_name

    def get_commands(self, obs):
        self.n += 1
        if self.n % 4 == 0:  # thinks for a while
            until = perf_counter() + 0.002
            while perf_counter() < until:
                pass
        c = random_command(self.model_like, self.rng)
        others = [po.state for p, po in sorted(obs.players.items()) if p != self.me]
        me = obs.players[self.me].state
        if others and self.n % 3 == 0:
            k = 0.5 if others[0].x > me.x else -0.5
            c = c * k
        return c

    def on_get_extra(self):
        if self.extra_every == 0 or self.n % self.extra_every:
            return None
        self.trail[0].append(self.n)  # kept and used on
        return [("extra", self.n), self.trail, 0, "", [], False, 0.0, ("extra", -self.n)][self.n // self.extra_every % 8]


@dataclass(frozen=True)
class TimedPolygonGoal(PlanningGoal):
    """a time-varying goal: a region open only from a given instant; `marks` is mutable (shared only by mistake)"""

    poly: Polygon
    after: D
    marks: list = field(default_factory=list)

    def is_fulfilled(self, state, at=0):
        if self.marks:
            return True
        return bool(D(str(at)) >= self.after and self.poly.contains(Point(state.x, state.y)))

    def get_plottable_geometry(self, at=0):
        return self.poly

    @property
    def is_static(self):
        return False


def random_polygon(rng, cx, cy, r, n=None):
    n = n or rng.randint(3, 7)
    angs = sorted(rng.uniform(0, 2 * pi) for _ in range(n))
    p = Polygon([(cx + r * np.cos(a), cy + r * np.sin(a)) for a in angs])
    return p if p.is_valid and p.area > 0.05 * r * r else box(cx - r / 2, cy - r / 2, cx + r / 2, cy + r / 2)


def corner_contact(rng, m, n):
    """place n, at rest, such that only the outermost corners of the two bodies overlap, in front of m, which moves on slowly"""
    def rear(q, pt):
        return (np.linalg.inv(q.get_pose()) @ [*pt, 1])[:2]

    c = np.array(m.get_pose()[:2, 2])
    pts = np.array(m.get_footprint().exterior.coords[:-1])
    front = [p for p in pts if rear(m, p)[0] > 0]
    A = max(front, key=lambda p: (round(np.linalg.norm(p - c), 6), rng.random()))
    loc = [rear(n, p) for p in n.get_footprint().exterior.coords[:-1]]
    B = max(loc, key=lambda p: (round(np.linalg.norm(p), 6), rng.random()))
    u = (A - c) / np.linalg.norm(A - c)
    psi = np.arctan2(-u[1], -u[0]) - np.arctan2(B[1], B[0])
    R = np.array([[np.cos(psi), -np.sin(psi)], [np.sin(psi), np.cos(psi)]])
    pos = A - rng.uniform(0.02, 0.15) * u - R @ B
    s, t = m.get_state(), n.get_state()
    t.x, t.y, t.psi = float(pos[0]), float(pos[1]), float(psi)
    n.set_state(t)
    n.set_velocity(np.zeros(2), 0.0, in_model_frame=True)
    m.set_velocity(np.array([rng.uniform(0.2, 1.0), 0.0]), 0.0, in_model_frame=True)


def random_context(rng, n_players=None, kinds=KINDS, max_time=None, dense=True, sensors=None, missions=None, np_agents=True,
                   scenario=None, posts=0.0, corners=0.0, piles=0.0):
    """A SimContext of n players thrown at a small area (so that contacts happen)"""
    n = n_players or rng.randint(2, 4)
    size = 6.0 if dense else 25.0
    models, players, mis = {}, {}, {}
    names = [PlayerName(f"P{i}") for i in range(n)]
    rng.shuffle(names)
    dt = D(rng.choice(["0.05", "0.1", "0.02", "0.03", "0.07"]))
    dtc = dt * rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.6 else D(rng.choice(["0.1", "0.11", "0.25", "0.033"]))
    tmax = max_time if max_time is not None else D(str(round(rng.uniform(0.5, 2.5), 2)))
    for i, p in enumerate(names):
        ang = 2 * pi * i / n + rng.uniform(-0.4, 0.4)
        x, y = size * np.cos(ang), size * np.sin(ang)
        psi = ang + pi + rng.uniform(-0.5, 0.5) if rng.random() < 0.8 else rng.uniform(-pi, pi)
        kind = rng.choice(kinds)
        m = make_model(kind, rng, x, y, psi, rng.choice([0.0, 3.0, 6.0, 9.0]))
        models[p] = m
        if np_agents and rng.random() < 0.4:
            k = rng.randint(1, 4)
            ts = [D("0.3") * j for j in range(k)]
            players[p] = NPAgent(DgSampledSequence(timestamps=ts, values=[random_command(m, rng) for _ in ts]))
        else:
            players[p] = ReactiveAgent(m, rng.random(), extra_every=rng.choice([0, 1, 2, 3]))
        if (missions is None and rng.random() < 0.5) or (missions is not None and missions):
            gx, gy = x * rng.uniform(-0.5, 0.9), y * rng.uniform(-0.5, 0.9)
            poly = random_polygon(rng, gx, gy, rng.uniform(1, 4))
            mis[p] = PolygonGoal(poly) if rng.random() < 0.6 else TimedPolygonGoal(poly, D(str(round(rng.uniform(0, 1), 2))))
    obstacles = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        a = rng.uniform(0, 2 * pi)
        d = rng.uniform(0.3, 1.3) * size
        obstacles.append(StaticObstacle(random_polygon(rng, d * np.cos(a), d * np.sin(a), rng.uniform(0.3, 2))))
    if mis and len(names) > 1 and rng.random() < 0.3:  # somebody shares the mission of somebody else
        mis[rng.choice(names)] = rng.choice(list(mis.values()))
    for p, m in models.items():
        if rng.random() < posts:  # two posts side by side ahead
            T = m.get_pose()
            loc = np.array([np.linalg.inv(T) @ [a, b, 1] for a, b in m.get_footprint().exterior.coords])
            front, hw, w = loc[:, 0].max() + rng.uniform(0.0, 1.0), np.abs(loc[:, 1]).max(), rng.uniform(0.1, 0.4)
            for side in (-1, 1):
                c, o = side * rng.uniform(0.4, 0.9) * hw, 0.0 if rng.random() < 0.7 else rng.uniform(0, 0.2)
                pts = [(front + o, c - w), (front + o + 1, c - w), (front + o + 1, c + w), (front + o, c + w)]
                obstacles.append(StaticObstacle(Polygon([tuple((T @ [a, b, 1])[:2]) for a, b in pts])))
    if n > 2 and rng.random() < piles:  # three that run into each other at once
        trio, kind, v = rng.sample(names, 3), rng.choice(["pedestrian", "car_dyn", "spacecraft", "bike_dyn"]), rng.uniform(1.5, 3.0)
        dirs = [2 * pi * k / 3 + rng.uniform(-0.05, 0.05) for k in range(3)]

        def at(d):
            out = [make_model(kind, rng, d * np.cos(a), d * np.sin(a), a + pi, 0.0) for a in dirs]
            for m in out:
                m.set_velocity(np.array([v, 0.0]), 0.0, in_model_frame=True)
            return out

        d, touch = 8.0, lambda ms: all(x.get_footprint().intersection(y.get_footprint()).area > 0.003 for x, y in combinations(ms, 2))
        while d > 0.1 and not touch(at(d)):
            d -= 0.01
        for p, m in zip(trio, at(d + v * float(dt))):
            models[p], players[p] = m, ReactiveAgent(m, rng.random())
    if corners and rng.random() < corners:
        corner_contact(rng, *[models[p] for p in rng.sample(names, 2)])
    kw = {}
    if sensors is not None:
        kw["sensors"] = {p: sensors(rng, p) for p in names}
        if rng.random() < 0.3:
            kw["sensors"].update(dict.fromkeys(rng.sample(names, 2), IdObsFilter()))
    return SimContext(dg_scenario=scenario or DgScenario(static_obstacles=obstacles), models=models, players=players,
                      param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=tmax,
                                          sim_time_after_collision=D(rng.choice(["0", "0.1", "0.5", "3"]))),
                      missions=fd(mis), seed=rng.choice([0, rng.randint(0, 99)]), **kw)
