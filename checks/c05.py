"""Loss of control after a collision: behaviours of spec/Control.tla, friction against spec/ControlTrace.tla"""
from copy import deepcopy
from decimal import Decimal

import numpy as np

from dg_commons.sim.models.vehicle import VehicleCommands
from vf import impact, world
from vf.modelcases import fx, nums

KEEPS = {"car_kin", "car_dyn", "dynobs"}
FRICTION = {"pedestrian", "car_dyn", "bike_dyn", "truck_dyn"}


def zero(u):
    return type(u).from_array(0 * u.as_ndarray())


def run(chk):
    rng = chk.rng
    behs = chk.emit("Control", constants=dict(MaxOps=4 if chk.quick else 5), invariants=["OutOfControl", "ObeysBefore", "Emit"],
                    properties=["NeverRegained"], workers=4)
    behs.sort(key=repr)
    impact.replay(chk, "C05", 500 if chk.quick else None)
    for kind in world.KINDS:
        cl = "keeps" if kind in KEEPS else "loses"
        for b in (b for b in behs if b["class"] == cl):
            m = world.make_model(kind, rng, rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-3, 3), 3.0)
            chk.traces += 1
            for e in b["hist"]:
                if e["op"] == "hit":
                    m.has_collided = True
                    if hasattr(m._state, "m") and rng.random() < 0.4:  # and the fuel is gone
                        m._state.m = m.model_params.m_v
                    continue
                # two clearly different commands
                u = {1: world.random_command(m, rng)}
                if kind == "diffdrive" and rng.random() < 0.4:  # turning on the spot
                    u[1].omega_r = -u[1].omega_l
                u[0] = zero(u[1])
                z = u[1].as_ndarray()
                u[2] = type(u[1]).from_array(0.4 * z + (0.15 if rng.random() < 0.7 else 0))
                dt = Decimal("0.1")
                out = {}
                for k in (0, 1, 2):
                    t = deepcopy(m)
                    t.update(u[k], dt)
                    out[k] = nums(t.get_state())
                # the commands take part in the step control of the integrator: differences up to its accuracy
                far = lambda a, b: max(abs(x - y) for x, y in zip(out[a], out[b])) > 1e-3
                if not e["follows"]:
                    chk.evals += 1
                    if far(0, 1) or far(0, 2):
                        chk.violation("C05.no-control", f"{kind} after a collision still reacts to commands {u[1]} {u[2]}: {out}; history {b}", b)
                    # what it follows is the command that asks for nothing (rate of change over a tiny step)
                    t, h = deepcopy(m), Decimal("0.00001")
                    t.update(u[1], h)
                    a, d, n = nums(m.get_state()), nums(m.dynamics(m.get_state(), u[0])), nums(t.get_state())
                    if any(abs((y - x) / float(h) - w) > 2e-2 * (1 + abs(w)) for x, y, w in zip(a, n, d)):
                        chk.violation("C05.no-control", f"{kind} after a collision still actuates: {a} -> {n} within {h} s, without actuation {d} per second; history {b}", b)
                else:
                    chk.evals += 1
                    if not far(0, 1) and max(abs(z)) > 0.3:
                        chk.violation("C05.control", f"{kind} does not react to the command {u[1]}: {out}; history {b}", b)
                m.update(u[e["cmd"]], dt)
            if m.has_collided and rng.random() < 0.5:
                # brought to rest, left alone, put somewhere else: still out of control
                m.set_velocity(np.zeros(2), 0.0, in_model_frame=rng.random() < 0.5)
                for _ in range(3):
                    m.update(zero(world.random_command(m, rng)), Decimal("0.5"))
                m.set_state(deepcopy(m.get_state()))
                u, out = world.random_command(m, rng), []
                for w in (zero(u), u):
                    t = deepcopy(m)
                    t.update(w, Decimal("0.1"))
                    out.append(nums(t.get_state()))
                chk.evals += 1
                if (cl == "loses" and max(abs(x - y) for x, y in zip(*out)) > 1e-3) or not m.has_collided:
                    chk.violation("C05.no-control", f"{kind} at rest after a collision (collided: {m.has_collided}) reacts to {u}: {out}; history {b}", b)
            if m.has_collided != any(e["op"] == "hit" for e in b["hist"]):
                chk.violation("C05.latched", f"{kind}: has_collided is {m.has_collided} after {b}", b)
    chk.sample(dict(kind="history", beh=behs[0]))
    # friction
    trs, info = [], []
    for _ in range(150 if chk.quick else 1500):
        kind = rng.choice(world.KINDS)
        tr = []
        for _ in range(4):
            m = world.make_model(kind, rng, rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-3, 3), rng.choice([0.0, 1.0, 3.0, 8.0, -0.5]))
            if hasattr(m._state, "vy") and rng.random() < 0.7:
                m._state.vy = rng.uniform(-1, 1)
                m._state.dpsi = rng.uniform(-1, 1)
            u = world.random_command(m, rng)
            st = m.get_state()
            d0 = m.dynamics(st, u)
            m.has_collided = True
            d1 = m.dynamics(st, u)
            fr = kind in FRICTION
            v = [fx(getattr(st, f)) for f in ("vx", "vy", "dpsi")] if fr else []
            dv = [fx(getattr(d1, f) - getattr(d0, f)) for f in ("vx", "vy", "dpsi")] if fr else []
            rest = [fx(getattr(d1, f) - getattr(d0, f)) for f in type(st).idx if not (fr and f in ("vx", "vy", "dpsi"))]
            tr.append(dict(kind=kind, v=v, dv=dv, rest=rest, same=st == m.get_state(), info=f"{kind} {st} {u}: {d0} -> {d1}"))
            chk.evals += 1
        trs.append(tr)
    bad = chk.validate("ControlTrace", trs, chunk=300)
    for k, cls in bad.items():
        for c, pos in cls:
            chk.violation(c, trs[k][pos - 1]["info"], trs[k][pos - 1])
