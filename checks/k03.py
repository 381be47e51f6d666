"""Agents: the lane follower as a composition (spec/AgentMC.tla) and in closed loop (spec/FollowTrace.tla); plans and policies"""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np

from dg_commons import DgSampledSequence, PlayerName, SE2Transform, UndefinedAtTime
from dg_commons.controllers.pure_pursuit import PurePursuit
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim import InitSimObservations, SimObservations
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.simulator_structures import PlayerObservations
from vf.impact import Frame
from vf.lanelib import fx, r

ME = PlayerName("Me")


class Choose(SpeedBehavior):
    """a scripted chooser of speed"""

    def __init__(self):
        super().__init__()
        self.answer, self.seen = (0.0, False), None

    def update_observations(self, agents):
        self.seen = agents

    def get_speed_ref(self, at):
        return self.answer


class Steer(PurePursuit):
    """a scripted chooser of steering"""

    def __init__(self):
        super().__init__()
        self.answer = 0.0

    def get_desired_steering(self):
        return self.answer


def obs(states, t):
    return SimObservations(players={n: PlayerObservations(state=s, occupancy=None) for n, s in states.items()}, time=t)


def run(chk):
    rng = chk.rng
    inv = ["Braking", "Limits", "Emit"]
    cases = []
    cases += chk.emit("AgentMC", constants=dict(Len0=1), workers=4, label="AgentMC exhaustive", invariants=inv, properties=["Latched"])
    for n in (3, 6) if chk.quick else (2, 4, 8, 12):
        more = chk.emit("AgentMC", constants=dict(Len0=n), workers=1, label="AgentMC simulated", invariants=inv, simulate=40 if chk.quick else 1000, depth=n + 1)
        more.sort(key=repr)
        cases += rng.sample(more, min(len(more), 600 if chk.quick else 20000))
    cases.sort(key=repr)
    for c in cases:
        composed(chk, rng, c)
    for _ in range(60 if chk.quick else 1000):
        simple(chk, rng)
    trs = [drive(rng, rng.choice(["free", "free", "lead", "oncoming", "left"])) for _ in range(24 if chk.quick else 600)]
    for i, bs in chk.validate("FollowTrace", trs).items():
        for cl, pos in bs:
            chk.violation(cl, f"{trs[i]['info']}: {trs[i]['ev'][pos - 1]}", dict(kind=trs[i]["kind"], info=trs[i]["info"], at=trs[i]["ev"][pos - 1]))
    chk.sample(cases[-1])


def composed(chk, rng, c):
    fr = Frame(rng)
    chk.traces += 1
    lane = DgLanelet([LaneCtrPoint(SE2Transform(fr.pt((x, 0)), fr.th), 1.5) for x in (0, 20, 28, 60)])
    vp = VehicleParameters(vx_limits=(-1, 12), acc_limits=(-8, 5), delta_max=1, ddelta_max=0.5)
    sb, pp = Choose(), Steer()
    ag = LFAgent(lane, vp, VehicleGeometry.default_car(), speed_behavior=sb, pure_pursuit=pp, return_extra=(show := rng.random() < 0.5))
    ag.on_episode_init(InitSimObservations(my_name=ME, seed=rng.randint(0, 9)))
    t = D(rng.choice(["0", "0.1", "3"]))
    for k, a in enumerate(c):
        chk.evals += 1
        if k:
            t += D(a["dt"][0]) / D(a["dt"][1])
        al, y = rng.uniform(1, 55), rng.uniform(-3, 3)
        p = fr.pt((al, y))
        s = VehicleState(x=p[0], y=p[1], psi=fr.th + rng.uniform(-1, 1), vx=r(a["v"]), delta=r(a["delta"]))
        sb.answer, pp.answer = (r(a["ref"]), a["em"]), r(a["dref"])
        players = {ME: s, PlayerName("Other"): VehicleState(x=0, y=0, psi=0, vx=99.0, delta=0.7)}
        o = obs(players, t)
        u = ag.get_commands(o)

        def bad(cl, what):
            chk.violation(f"K03.{cl}", f"{what}; request {k + 1} of {c}", c)

        if not np.allclose((u.acc, u.ddelta), (r(a["acc"]), r(a["dd"])), atol=1e-9):
            bad("commands", f"acc {u.acc} ddelta {u.ddelta}")
            return
        if sb.my_name != ME or dict(sb.seen) != dict(o.players):
            bad("inputs", f"the chooser of speed saw {sb.seen}")
        if pp.path is not lane or abs(pp.speed - r(a["used"])) > 1e-9 or abs(pp.along_path - al) > 0.5 or not np.allclose(pp.pose[:2, 2], p, atol=1e-6) \
                or abs(pp.pose[1, 0] - math.sin(s.psi)) > 1e-6 or abs(pp.pose[0, 0] - math.cos(s.psi)) > 1e-6:
            bad("inputs", f"the chooser of steering got speed {pp.speed} progress {pp.along_path} pose {pp.pose}, expected {a['used']} {al} {s}")
        # what it shows: from its rear axle to the point it steers to
        extra = ag.on_get_extra()
        if not show:
            if extra is not None:
                bad("extra", f"shows {extra}")
        else:
            (tr, _), = extra
            goal = pp.find_goal_point()[1][:2, 2]
            a0, a1 = tr.values
            if not np.allclose((a0.x, a0.y), p - pp.param.length / 2 * np.array([math.cos(s.psi), math.sin(s.psi)]), atol=1e-6) or not np.allclose((a1.x, a1.y), goal, atol=1e-6):
                bad("extra", f"shows {a0} to {a1}, steers to {goal}")


def simple(chk, rng):
    """plans hold until the next entry; policies see the state of their own player only"""
    n = rng.randint(1, 5)
    ts = sorted(rng.sample(range(0, 12), n))
    cmds = [VehicleCommands(acc=float(k), ddelta=0.0) for k in range(n)]
    ag = NPAgent(DgSampledSequence[VehicleCommands]([t * D("0.1") for t in ts], cmds))
    ag.on_episode_init(InitSimObservations(my_name=ME, seed=0))
    s = VehicleState(x=rng.uniform(-9, 9), y=0, psi=0, vx=0, delta=0)
    for k in range(30):
        if k < ts[0] * 2:  # before the plan begins
            try:
                chk.violation("K03.plan", f"plan {list(zip(ts, cmds))} (tenths of seconds): at {k}/20 s {ag.get_commands(obs({ME: s}, k * D('0.05')))}")
            except UndefinedAtTime:
                pass
            continue
        exp = cmds[max(j for j in range(n) if ts[j] * 2 <= k)]
        got = ag.get_commands(obs({ME: s}, k * D("0.05")))
        if got != exp:
            chk.violation("K03.plan", f"plan {list(zip(ts, cmds))} (tenths of seconds): at {k}/20 s {got}")
    # a policy is asked at every request, also when nothing or hardly anything changed
    calls = []
    pol = PolicyAgent(lambda x: calls.append(x) or VehicleCommands(acc=x.vx + 10 * len(calls), ddelta=x.delta))
    pol.on_episode_init(InitSimObservations(my_name=ME, seed=0))
    s = VehicleState(x=rng.uniform(-9, 9), y=0, psi=0, vx=rng.uniform(0, 3), delta=0.1)
    for k in range(1, 8):
        chk.evals += 1
        for f in rng.sample(["x", "y", "psi", "vx", "delta"], rng.choice([0, 1, 1, 2, 5])):
            s = replace(s, **{f: rng.uniform(-2, 2)})
        t = D(k) / 10 if rng.random() < 0.7 else D(0)
        others = {PlayerName("A"): VehicleState(x=0, y=0, psi=0, vx=7, delta=9), PlayerName("Z"): VehicleState(x=0, y=0, psi=0, vx=8, delta=9)}
        u = pol.get_commands(obs({PlayerName("A"): others[PlayerName("A")], ME: s, PlayerName("Z"): others[PlayerName("Z")]}, t))
        if len(calls) != k or u != VehicleCommands(acc=s.vx + 10 * k, ddelta=s.delta) or calls[-1] != s:
            chk.violation("K03.policy", f"request {k}: policy was asked {len(calls)} times, the last time with {calls[-1:]} instead of {s}: {u}")
            return


def drive(rng, kind):
    fr = Frame(rng)
    R = rng.uniform(40, 100)
    phi = rng.choice([0.0, rng.uniform(0.3, 1.3) * rng.choice([-1, 1])]) if kind != "oncoming" else 0.0
    x = y = th = 0.0
    pts = []
    for k in range(45):
        pts.append(LaneCtrPoint(SE2Transform(fr.pt((x, y)), fr.th + th), 2.0))
        ds = 8.0
        kap = math.copysign(1 / R, phi) if phi and 3 * ds < k * ds < 3 * ds + abs(phi) * R else 0.0
        t2 = th + kap * ds
        if kap:
            x, y = x + (math.sin(t2) - math.sin(th)) / kap, y - (math.cos(t2) - math.cos(th)) / kap
        else:
            x, y = x + ds * math.cos(th), y + ds * math.sin(th)
        th = t2
    lane = DgLanelet(pts)
    quiet = kind in ("oncoming", "left")
    lat, h, v = (rng.uniform(-2, 2), rng.uniform(-0.4, 0.4), rng.uniform(0, 12)) if not quiet else (0.0, 0.0, rng.uniform(6, 12))
    p = fr.pt((0, lat))
    car = VehicleModel(VehicleState(x=p[0], y=p[1], psi=fr.th + h, vx=v, delta=0.0), VehicleGeometry.default_car(), VehicleParameters.default_car())
    ag = LFAgent(lane, car.vp, car.vg)
    ag.on_episode_init(InitSimObservations(my_name=ME, seed=0))
    lead_v = rng.uniform(4, 8)
    lead0 = rng.uniform(25, 35)
    meet = rng.uniform(2, 5)
    ev, em, emat, prev = [], False, -1.0, None
    n = 240 if kind == "lead" else 150
    for k in range(n):
        s = car.get_state()
        t = k * 0.1
        states = {ME: s}
        lp = lane.lane_pose_from_SE2Transform(SE2Transform([s.x, s.y], s.psi))
        gap = 99.0
        if kind == "lead":
            al = lead0 + lead_v * t
            q = SE2Transform.from_SE2(lane.center_point(lane.beta_from_along_lane(al)))
            states[PlayerName("A")] = VehicleState(x=q.p[0], y=q.p[1], psi=q.theta, vx=lead_v, delta=0.0)
            gap = al - lp.along_lane - 4.0
        elif kind == "oncoming" and meet <= t < meet + 0.5:
            q = fr.pt((lp.along_lane + 12, 0.3))
            states[PlayerName("A")] = VehicleState(x=q[0], y=q[1], psi=fr.th + math.pi, vx=4.0, delta=0.0)
        elif kind == "left" and meet <= t < meet + 0.5:
            hd = s.psi
            q = np.array([s.x, s.y]) + 5 * np.array([math.cos(hd + 0.7), math.sin(hd + 0.7)])
            states[PlayerName("A")] = VehicleState(x=q[0], y=q[1], psi=hd - math.pi / 2, vx=5.0, delta=0.0)
        if len(states) > 1 and quiet and not em:
            em, emat = True, t
        adv = 0.0 if prev is None else (s.x - prev.x) * math.cos(s.psi) + (s.y - prev.y) * math.sin(s.psi)
        prev = s
        ev.append(dict(t=fx(t), adv=fx(adv), v=fx(s.vx), lat=fx(lp.lateral), head=fx(math.remainder(lp.relative_heading, 2 * math.pi)), along=fx(lp.along_lane), gap=fx(gap),
                       em=int(em), delta=fx(s.delta)))
        car.update(ag.get_commands(obs(states, D(k) / 10)), D("0.1"))
    vp = car.vp
    return dict(kind=kind, settle=fx(22 if kind == "lead" else 12), nominal=fx(40 / 3.6), vmax=fx(vp.vx_limits[1]), dmax=fx(vp.delta_max), lead=fx(lead_v), emat=fx(emat), stop=fx(6), ev=ev,
                info=f"{kind}: radius {R if phi else None} turn {phi}, offset {lat} heading {h} speed {v}, vehicle ahead {lead_v} m/s at {lead0} m, met at {meet} s")
