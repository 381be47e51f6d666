"""Recording a run of the real Simulator as a trace for spec/SimTrace.tla.

Everything is observed from outside: agents, sensors and goals are wrapped through their public interfaces, models through a
subclass created on the fly (update / set_velocity), and the public fields of the SimContext.  Values (states, commands,
footprints) are interned by value, so the specification compares identities of values, never floats."""
import dataclasses
from copy import deepcopy
from decimal import Decimal
from fractions import Fraction
from itertools import combinations
from time import perf_counter

import numpy as np
from shapely.geometry import MultiPoint, Point
from shapely.geometry.base import BaseGeometry

from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel
from dg_commons.sim.sim_perception import ObsFilter


def value_key(v):
    if v is None or isinstance(v, (str, bool, int)):
        return repr(v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex()
    if isinstance(v, np.integer):
        return repr(int(v))
    if isinstance(v, Decimal):
        return "D" + str(Fraction(v))
    if isinstance(v, BaseGeometry):
        return v.wkb_hex
    if isinstance(v, np.ndarray):
        return "[" + ",".join(value_key(x) for x in v.tolist()) + "]"
    if isinstance(v, (list, tuple)):
        return "(" + ",".join(value_key(x) for x in v) + ")"
    if dataclasses.is_dataclass(v):
        return type(v).__name__ + "{" + ",".join(f"{f.name}={value_key(getattr(v, f.name))}" for f in dataclasses.fields(v)) + "}"
    return repr(v)


def scribble(o):
    """change an object in place"""
    if o is None or not dataclasses.is_dataclass(o) or isinstance(o, type):
        return
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            try:
                setattr(o, f.name, v + 1.25)
            except (AttributeError, TypeError):
                pass


def scenario_key(dgs):
    obs = [(value_key(x.shape), value_key(x.geometry)) for x in dgs.static_obstacles]
    lanes = [] if dgs.scenario is None else [(x.lanelet_id, value_key(x.center_vertices)) for x in dgs.scenario.lanelet_network.lanelets]
    return repr((obs, lanes))


class Intern:
    def __init__(self, prefix):
        self.prefix, self.m = prefix, {}

    def __call__(self, v):
        return f"{self.prefix}{self.m.setdefault(value_key(v), len(self.m) + 1)}"


class RecAgent(Agent):
    def __init__(self, rec, name, inner):
        self.rec, self.name, self.inner = rec, name, inner

    def on_episode_init(self, init_sim_obs):
        self.rec.on_init(self.name, init_sim_obs)
        self.inner.on_episode_init(init_sim_obs)
        self.rec.vandalise(init_sim_obs)

    def get_commands(self, sim_obs):
        return self.rec.on_ask(self.name, sim_obs, self.inner)

    def on_get_extra(self):
        self.rec.on_done(self.name)
        extra = self.inner.on_get_extra()
        self.rec.on_extra(self.name, extra)
        self.rec.reuse(self.name)
        return extra


class RecSensor(ObsFilter):
    def __init__(self, rec, inner):
        self.rec, self.inner = rec, inner

    def sense(self, scenario, full_obs, pov):
        self.rec.sense_in[pov] = full_obs
        out = self.inner.sense(scenario, full_obs, pov)
        self.rec.sense_out[pov] = out
        self.rec.sensed_at[pov] = perf_counter()
        return out


def _recording_class(cls):
    class R(cls):
        def update(self, commands, dt):
            rec = self.__dict__["_vf_rec"]
            rec.before_update(self, commands, dt)
            super().update(commands, dt)
            rec.after_update(self)

        def set_velocity(self, vel, omega, in_model_frame):
            super().set_velocity(vel, omega, in_model_frame)
            self.__dict__["_vf_rec"].on_set_velocity(self)

    R.__name__ = cls.__name__
    R.__qualname__ = cls.__qualname__
    return R


class Recorder:
    """Recorder(ctx) instruments a freshly built SimContext; after Simulator().run(ctx), trace() gives the JSON-able trace"""

    def __init__(self, ctx, tick="0.001", vandal=False):
        self.ctx, self.vandal = ctx, vandal
        self.tick = Fraction(Decimal(tick))
        self.S, self.Cm, self.F, self.X = Intern("s"), Intern("c"), Intern("f"), Intern("x")
        self.ev = []
        self.sense_in, self.sense_out = {}, {}
        self.sensed_at, self.spent = {}, {str(p): [] for p in ctx.players}
        self.goals = {p: deepcopy(g) for p, g in ctx.missions.items()}
        self.orig_goals = dict(ctx.missions)
        self.players = [str(p) for p in ctx.players]
        self.start = {str(p): self.S(m.get_state()) for p, m in ctx.models.items()}
        self.startF = {str(p): self.F(m.get_footprint()) for p, m in ctx.models.items()}
        self.cfg = dict(players=self.players, missions=[str(p) for p in ctx.missions], dt=self.tk(ctx.param.dt),
                        dtc=self.tk(ctx.param.dt_commands), tmax=self.tk(ctx.param.max_sim_time),
                        tcol=self.tk(ctx.param.sim_time_after_collision))
        self.who = {}
        self.vel, self.shape, self.acted, self.nrep = {}, {}, set(), len(ctx.collision_reports)
        self.obstacles = [(o.shape, o) for o in ctx.dg_scenario.static_obstacles]
        self.scenario, self.alive = ctx.dg_scenario, [list(ctx.dg_scenario.static_obstacles)]
        self.scen0 = scenario_key(ctx.dg_scenario)
        self.goals0 = {p: value_key(g) for p, g in ctx.missions.items()}
        self.obstacle_ids = {id(o) for o in ctx.dg_scenario.static_obstacles}
        for p, m in ctx.models.items():
            self.who[id(m)] = p
            m.__dict__["_vf_rec"] = self
            m.__class__ = _recording_class(type(m))
        sensors = ctx.sensors
        wrapped = {}  # who shares a sensor goes on sharing it
        ctx.sensors = {p: wrapped.setdefault(id(sensors[p]), RecSensor(self, sensors[p])) for p in ctx.models}
        for p in list(ctx.players):
            ctx.players[p] = RecAgent(self, p, ctx.players[p])
        self.contacts, self.mine, self.between = 0, {}, []
        self._ov_pending = None

    def tk(self, t):
        q = Fraction(Decimal(str(t)) if not isinstance(t, Decimal) else t) / self.tick
        if q.denominator != 1:
            return -777  # an instant that is not on the grid: no specification instant equals it
        return int(q)

    def drain(self):
        reps = self.ctx.collision_reports
        while self.nrep < len(reps):
            r = reps[self.nrep]
            self.nrep += 1
            ps = [str(p) for p in r.players]
            mult = 1
            if "Env" in ps:
                p = [x for x in r.players if str(x) != "Env"]
                mult = len(self.env_contacts(p[0])) if p else 0
            elif len(ps) == 1:  # contact geometry not resolvable: the environment is not listed as a player
                mult = len(self.env_contacts(list(r.players)[0]))
                ps = ps + ["Env"]
            self.ev.append(dict(k="rep", t=self.tk(r.at_time), ps=ps, mult=mult))

    def act(self):
        return [str(p) for p in self.ctx.players]

    def env_contacts(self, p):
        sh = self.shape.get(p)
        return [] if sh is None else [i for i, (o, _) in enumerate(self.obstacles) if sh.intersects(o) and not sh.touches(o)]

    def now(self):
        """velocities after the resolution of the contacts"""
        return {p: self.ctx.models[p].get_velocity(in_model_frame=False) for p in self.ctx.players}

    def contacts_now(self):
        """contacts among the active bodies; closing sign from the velocities right after the step"""
        ov = []
        act = list(self.ctx.players)
        for p in act:
            if isinstance(self.ctx.models[p], DynObstacleModel):
                continue
            for i in self.env_contacts(p):
                ov.append([str(p), "Env", closing(self, p, None, self.obstacles[i][0]), closing(self, p, None, self.obstacles[i][0], self.now()), 0])
        for p, q in combinations(act, 2):
            a, b = self.shape.get(p), self.shape.get(q)
            if a is not None and b is not None and a.intersects(b) and not a.touches(b):
                # approaching throughout: before, after, and after every single change of a velocity in between
                signs = [closing(self, p, q, b, v) for v in [None, self.now(), *self.between]]
                ov.append([str(p), str(q), *signs[:2], 1 if all(x == 1 for x in signs) else 0])
        self.contacts += len(ov)
        return ov

    def instant(self, p):
        """called before the event of player p: is it the first one of a new instant?"""
        if self.acted and (p in self.acted or self.acted >= set(self.ctx.players)):
            self.acted = set()
            ov, self.between = self.contacts_now(), []
            return dict(ov=ov)
        return {}

    # events
    def on_init(self, p, o):
        g, og = o.goal, self.orig_goals.get(p)
        m = self.ctx.models[p]
        self.ev.append(dict(
            k="init", p=str(p), seed=bool(o.seed == self.ctx.seed), name=bool(o.my_name == p),
            goal=bool((g is None) == (og is None) and type(g) is type(og) and value_key(g) == value_key(og)),
            goalCopy=bool(og is None or (g is not og and not any(g is x.goal for x in getattr(self, "keep", [])))),
            scenCopy=bool(o.dg_scenario is not self.ctx.dg_scenario
                          and not any(id(x) in self.obstacle_ids for x in o.dg_scenario.static_obstacles)
                          and (o.dg_scenario.scenario is None or o.dg_scenario.scenario is not self.ctx.dg_scenario.scenario)),
            scenEq=bool(o.dg_scenario is not None and scenario_key(o.dg_scenario) == self.scen0),
            intact=bool(scenario_key(self.ctx.dg_scenario) == self.scen0
                        and all(value_key(g) == self.goals0[q] for q, g in self.ctx.missions.items())),
            model=bool(o.model_geometry == m.model_geometry and o.model_params == m.model_params)))
        self.obstacle_ids |= {id(x) for x in o.dg_scenario.static_obstacles}
        self.alive.append((list(o.dg_scenario.static_obstacles), o.goal))  # so that identities are not used again
        self.keep = getattr(self, "keep", []) + [o]

    def vandalise(self, o):
        """an agent may do anything to what it was handed at the beginning of the episode"""
        if not self.vandal:
            return
        for x in o.dg_scenario.static_obstacles:
            x.shape = Point(1e6, 1e6).buffer(1.0)
            x.geometry = None
        o.dg_scenario.static_obstacles = ()
        if o.dg_scenario.scenario is not None:
            for lid in [x.lanelet_id for x in o.dg_scenario.scenario.lanelet_network.lanelets]:
                o.dg_scenario.scenario.remove_lanelet(o.dg_scenario.scenario.lanelet_network.find_lanelet_by_id(lid))
        if hasattr(o.goal, "marks"):
            o.goal.marks.append("vandalised")

    def reuse(self, p):
        """an agent may go on using what it returned and what it was shown"""
        if not self.vandal:
            return
        for o in self.mine.get(p, []):
            scribble(o)
        self.mine[p] = []

    def on_done(self, p):
        """between the end of the thinking and the bookkeeping: the computation time is known up to here"""
        if self.spent[str(p)] and self.spent[str(p)][-1][1] is None:
            self.spent[str(p)][-1][1] = perf_counter() - self.sensed_at.get(p, -1e9)

    def on_ask(self, p, obs, inner):
        began = perf_counter()
        self.drain()
        full = self.sense_in.pop(p, None)
        out = self.sense_out.pop(p, None)
        e = dict(k="ask", p=str(p), t=self.tk(self.ctx.time), act=self.act(), **self.instant(p))
        src = full if full is not None else obs
        e["sensed"] = bool(out is obs or (out is not None and out.time == obs.time and value_key(sorted(
            (str(k), v) for k, v in out.players.items())) == value_key(sorted((str(k), v) for k, v in obs.players.items()))))
        e["obsT"] = self.tk(src.time)
        e["obs"] = {str(q): self.S(po.state) for q, po in src.players.items()}
        e["obsF"] = {str(q): self.F(po.occupancy) for q, po in src.players.items()}
        ret = inner.get_commands(obs)
        e["ret"] = self.Cm(ret)
        e["extra"] = "NONE"
        self.ev.append(e)
        self.spent[str(p)].append([perf_counter() - began, None])
        if self.vandal:
            self.mine.setdefault(p, []).append(ret)
            # what it was shown: at once, the others have not been asked yet
            for po in obs.players.values():
                scribble(po.state)
        return ret

    def on_extra(self, p, extra):
        for e in reversed(self.ev):
            if e["k"] == "ask" and e["p"] == str(p):
                e["extra"] = "NONE" if extra is None else self.X(extra)
                return

    def before_update(self, m, commands, dt):
        p = self.who[id(m)]
        self.drain()
        self._e = dict(k="upd", p=str(p), t=self.tk(self.ctx.time), act=self.act(), c=self.Cm(commands), dt=self.tk(dt),
                       pre=self.S(m.get_state()), **self.instant(p))

    def after_update(self, m):
        p = self.who[id(m)]
        e = self._e
        st = m.get_state()
        e["post"] = self.S(st)
        e["postF"] = self.F(m.get_footprint())
        g = self.goals.get(p)
        e["ful"] = bool(g is not None and g.is_fulfilled(st, self.ctx.time + self.ctx.param.dt))
        self.vel[p] = m.get_velocity(in_model_frame=False)
        self.shape[p] = m.get_footprint()
        self.acted.add(p)
        self.ev.append(e)

    def on_set_velocity(self, m):
        if id(m) in self.who:
            self.drain()
            self.between.append(self.now())
            self.ev.append(dict(k="setv", p=str(self.who[id(m)]), post=self.S(m.get_state())))

    def trace(self):
        self.drain()
        log, S, C, X = self.ctx.log, self.S, self.Cm, self.X

        def seq(sq, f):
            return [[self.tk(t), f(v)] for t, v in zip(sq.timestamps, sq.values)]

        fc = self.ctx.first_collision_ts
        self.ev.append(dict(
            k="end", t=self.tk(self.ctx.time), act=self.act(), logged=[str(p) for p in log],
            logS={str(p): seq(l.states, S) for p, l in log.items()},
            logC={str(p): seq(l.commands, C) for p, l in log.items()},
            logX={str(p): seq(l.extra, X) for p, l in log.items()},
            logI={str(p): [self.tk(t) for t in l.info.timestamps] for p, l in log.items()},
            spent={str(p): len(l.info.values) != len(self.spent[str(p)]) or all(
                lo - 5e-4 <= v and (hi is None or v <= hi + 5e-4) for v, (lo, hi) in zip(l.info.values, self.spent[str(p)])) for p, l in log.items()},
            intact=bool(scenario_key(self.ctx.dg_scenario) == self.scen0
                        and all(value_key(g) == self.goals0[q] for q, g in self.ctx.missions.items())),
            first=-1 if not Decimal(fc).is_finite() else self.tk(fc), nrep=self.nrep))
        return dict(c=self.cfg, start=self.start, startF=self.startF, ev=self.ev)


def closing(rec, p, q, b, vel=None):
    """sign of the closing speed at the contact point (1 closing, -1 separating, 0 too close to call / not a plain contact)"""
    vel = rec.vel if vel is None else vel
    a = rec.shape[p]
    try:
        if a.contains(b) or b.contains(a) or a.geom_type != "Polygon" or b.geom_type != "Polygon":
            return 0
        if a.intersection(b).geom_type != "Polygon" or a.intersection(b).area < 1e-4:
            return 0
        pts = a.exterior.intersection(b.exterior)
        if not isinstance(pts, MultiPoint) or len(pts.geoms) != 2:
            return 0
        (x1, y1), (x2, y2) = [(g.x, g.y) for g in pts.geoms]
        L = np.hypot(x2 - x1, y2 - y1)
        if L < 1e-3:
            return 0
        n = np.array([-(y2 - y1), x2 - x1]) / L
        mid = np.array([(x1 + x2) / 2, (y1 + y2) / 2])
        c = np.array([a.centroid.x, a.centroid.y])
        d = float(np.dot(mid - c, n))
        if abs(d) < 1e-2:
            return 0
        if d < 0:
            n = -n

        def vel_at(r):
            v, w = vel[r]
            cog = rec.ctx.models[r].get_pose()[:2, 2]
            rr = mid - cog
            return np.array([v[0] - w * rr[1], v[1] + w * rr[0]], dtype=float)

        rel = vel_at(p) - (vel_at(q) if q is not None else 0)
        s = float(np.dot(rel, n))
        return 0 if abs(s) < 1e-3 else (1 if s > 0 else -1)
    except Exception:
        return 0


def numbers(v):
    """the numeric content of a state or command"""
    return [float(getattr(v, f.name)) for f in dataclasses.fields(v) if isinstance(getattr(v, f.name), (int, float, np.number))]
