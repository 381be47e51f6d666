"""Stub models, agents and goals that close the real Simulator with the one-dimensional world of spec/SimMC.tla."""
from dataclasses import dataclass, replace
from decimal import Decimal

import numpy as np
from geometry import SE2_from_xytheta
from shapely.geometry import box, Polygon

from dg_commons import PlayerName, fd
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.models.model_structures import ModelGeometry, ModelParameters, CAR
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import SimModel

H = 3


@dataclass(unsafe_hash=True)
class StubState:
    x: float
    v: float
    col: bool = False
    y: float = 0.0
    psi: float = 0.0

    def d(self):
        return dict(x=self.x, v=self.v, col=self.col)

    def __add__(self, o):
        return replace(self, x=self.x + o.x, v=self.v + o.v)

    __radd__ = __add__

    def __mul__(self, k):
        return replace(self, x=self.x * k, v=self.v * k)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self + o * -1.0


@dataclass(frozen=True, unsafe_hash=True)
class StubGeometry(ModelGeometry):
    m: float = 1.0
    Iz: float = 1.0
    e: float = 1.0
    color: str = "red"

    @property
    def outline(self):
        return ((-H, -1), (H, -1), (H, 1), (-H, 1))


class StubModel(SimModel):
    def __init__(self, x, v, hh):
        self._state = StubState(float(x), float(v))
        self.hh = hh
        self.geo = StubGeometry()

    @property
    def has_collided(self):
        return self._state.col

    @has_collided.setter
    def has_collided(self, val):
        self._state.col = bool(val)

    def update(self, commands, dt):
        st = self._state
        v = st.v if st.col else commands
        self._state = replace(st, x=st.x + v, v=float(v))

    def get_footprint(self):
        return box(self._state.x - H, -self.hh, self._state.x + H, self.hh)

    def get_pose(self):
        return SE2_from_xytheta([self._state.x, 0, 0])

    def get_velocity(self, in_model_frame):
        return np.array([self._state.v, 0.0]), 0.0

    def set_velocity(self, vel, omega, in_model_frame):
        self._state = replace(self._state, v=float(vel[0]))

    def get_mesh(self):
        return {IMPACT_EVERYWHERE: self.get_footprint()}

    @property
    def model_geometry(self):
        return self.geo

    @property
    def model_type(self):
        return CAR

    @property
    def model_params(self):
        return ModelParameters((-1, 1), (-1, 1))

    def get_extra_collision_friction_acc(self):
        return 0, 0, 0


class StubAgent(Agent):
    """Scripted (command by request number) or chasing (towards the closest observed player) agent"""

    def __init__(self, kind, script):
        self.kind, self.script = kind, script
        self.asks = []
        self.inits = 0

    def on_episode_init(self, init_obs):
        self.me = init_obs.my_name
        self.inits += 1

    def get_commands(self, obs):
        k = len(self.asks)
        self.asks.append((obs.time, {str(p): po.state.d() for p, po in obs.players.items()}))
        if self.kind == "chase":
            me = obs.players[self.me].state
            others = sorted((abs(po.state.x - me.x), str(p)) for p, po in obs.players.items() if p != self.me)
            return 0 if not others else int(np.sign(obs.players[PlayerName(others[0][1])].state.x - me.x))
        return self.script[min(k, len(self.script) - 1)]


@dataclass(frozen=True)
class StubGoal(PlanningGoal):
    gx: float
    gt: Decimal

    def is_fulfilled(self, state, at=0):
        return state.x >= self.gx and at >= self.gt

    def get_plottable_geometry(self, at=0):
        return Polygon()

    @property
    def is_static(self):
        return False


def build(cfg, tick: Decimal, order):
    """A real SimContext for a configuration of SimMC; `tick` is the physical length of a tick, `order` the players' order"""
    hh = {"A": 9.0, "B": 4.0, "C": 6.0}
    P = PlayerName
    models = {P(p): StubModel(cfg["start"][p]["x"], cfg["start"][p]["v"], hh[p]) for p in order}
    players = {P(p): StubAgent(cfg["kind"][p], cfg["script"][p]) for p in order}
    missions = {P(p): StubGoal(cfg["goal"][p]["x"], cfg["goal"][p]["t"] * tick) for p in order if p in cfg["missions"]}
    walls = [StaticObstacle(box(w, -50, w + 100, 50 + i), geometry=ObstacleGeometry(np.inf, np.inf, 1.0))
             for i, w in enumerate(cfg["wall"])]
    ctx = SimContext(
        dg_scenario=DgScenario(static_obstacles=walls),
        models=models,
        players=dict(players),
        param=SimParameters(dt=cfg["dt"] * tick, dt_commands=cfg["dtc"] * tick, max_sim_time=cfg["tmax"] * tick,
                            sim_time_after_collision=cfg["tcol"] * tick),
        missions=fd(missions),
    )
    return ctx, players
