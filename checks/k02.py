"""The speed drivers aim at: every case of spec/BehaviourMC.tla"""
import copy
import math

from dg_commons import PlayerName
from dg_commons.controllers.speed import SpeedBehavior, SpeedBehaviorParam
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleStateDyn
from dg_commons.sim.simulator_structures import PlayerObservations
from vf.impact import Frame


def r(q):
    return q[0] / q[1]


def run(chk):
    rng = chk.rng
    cases = chk.emit("BehaviourMC", constants=dict(Size=1 if chk.quick else 2), workers=8, invariants=["Sane", "Monotone", "Alone", "Emit"])
    cases.sort(key=repr)
    for c in cases:
        i, d = c["i"], c["d"]
        chk.traces += 1
        chk.evals += 1
        fr = Frame(rng)
        p = i["p"]

        def state(x, y, th, v):
            q = fr.pt((x, y))
            psi = th + fr.th + 2 * math.pi * rng.randint(-1, 1)
            if rng.random() < 0.3:
                return VehicleStateDyn(x=q[0], y=q[1], psi=psi, vx=v, delta=rng.uniform(-1, 1), vy=rng.uniform(-1, 1), dpsi=rng.uniform(-1, 1))
            return VehicleState(x=q[0], y=q[1], psi=psi, vx=v, delta=rng.uniform(-1, 1))

        me = PlayerName(rng.choice("AKZ"))
        obs = [(me, state(0, 0, 0, r(i["my"])))] + [(PlayerName("M" + str(n)), state(r(o["x"]), r(o["y"]), o["k"] * math.pi / 24, r(o["v"]))) for n, o in enumerate(i["os"])]
        rng.shuffle(obs)
        obs = {n: PlayerObservations(state=s, occupancy=None) for n, s in obs}
        keep = copy.deepcopy(obs)
        b = SpeedBehavior(me)
        if p["name"] == "other":
            b.params = SpeedBehaviorParam(nominal_speed=r(p["nom"]), yield_distance=r(p["yd"]), minimum_yield_vel=r(p["mv"]), safety_time_braking=r(p["st"]))
        if rng.random() < 0.5:  # what was seen before does not matter
            b.update_observations({me: obs[me], "old": PlayerObservations(state=state(3, 0, math.pi, 5), occupancy=None)})
            b.get_speed_ref(0.0)
        b.update_observations(obs)
        v, em = b.get_speed_ref(1.0)
        if bool(em) != d[1]:
            chk.violation("K02.emergency", f"emergency {em}: {i}", c)
        if not abs(v - r(d[0])) <= 1e-9:
            chk.violation("K02.speed", f"speed {v} expected {r(d[0])}: {i}", c)
        if obs != keep:
            chk.violation("K02.operands", f"observations changed: {keep} -> {obs}", c)
    chk.sample(cases[-1])
