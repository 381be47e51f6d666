"""Motion primitives and sampled commands: every case of spec/PrimMC.tla"""
from decimal import Decimal
from itertools import product

import numpy as np

from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.planning.motion_primitives import MotionPrimitivesGenerator, MPGParam
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_utils import VehicleParameters


def q4(q):
    return q[0] / q[1] / 4


def run(chk):
    cases = chk.emit("PrimMC", constants=dict(Size=1 if chk.quick else 2), workers=8, invariants=["Idle", "OwnGridAllowed", "Emit"])
    cases.sort(key=repr)
    if chk.quick:
        cases = [c for c in cases if c["i"]["kind"] != "primitive" or chk.rng.random() < 0.6]
    for c in cases:
        chk.traces += 1
        (vehicle if c["i"]["kind"] == "vehicle" else generator)(chk, c)
    chk.sample(cases[0])


def grid(g):
    return (g["lo"] / 4, g["hi"] / 4, g["n"])


def vp(i, vlo=-10.0, vhi=10.0, dmax=4.0):
    l = i["lim"]
    return VehicleParameters(vx_limits=(vlo, vhi), acc_limits=(l["alo"] / 4, l["ahi"] / 4), delta_max=dmax, ddelta_max=l["dd"] / 4)


def generator(chk, c):
    i, d = c["i"], c["d"]
    calls = []

    def dyn(x, u, dt):
        """constant commands: an exact little integrator that also leaves a mark for every step"""
        calls.append((u.acc, u.ddelta, dt))
        return VehicleState(x=x.x + 1.0, y=x.y - 2.0 * u.ddelta * dt, psi=x.psi + 0.5 * dt, vx=x.vx + u.acc * dt, delta=x.delta + u.ddelta * dt)

    def bad(cl, what):
        chk.violation(f"T03.{cl}", f"{what}; {i}", c)

    dt = Decimal(i["dt"][0]) / Decimal(i["dt"][1])
    n = i["steps"]
    x0 = None if not i["x0"] else VehicleState(x=3.0, y=-1.0, psi=0.7, vx=i["x0"][0] / 4, delta=i["x0"][1] / 4)
    if i["kind"] == "primitive":
        want = MPGParam(dt=dt, n_steps=n, velocity=grid(i["vg"]), steering=grid(i["sg"]))
        if chk.rng.random() < 0.5:
            gen = MotionPrimitivesGenerator(want, dyn, vp(i))
        else:  # used before, with other parameters
            same = chk.rng.random() < 0.5
            gen = MotionPrimitivesGenerator(MPGParam(dt=dt * 4, n_steps=n + 1, velocity=want.velocity if same else (-1, 1, 2), steering=want.steering if same else (0, 1, 2)), dyn, vp(i))
            gen.generate(None if chk.rng.random() < 0.5 else VehicleState(x=3.0, y=-1.0, psi=0.7, vx=0.5, delta=0.25))
            if chk.rng.random() < 0.5:
                gen.param = want
            else:
                for f in ("dt", "n_steps", "velocity", "steering"):
                    setattr(gen.param, f, getattr(want, f))
        got = gen.generate(x0)
    else:
        try:
            want = CommandsSamplerParam(dt=dt, n_steps=n, acc=grid(i["vg"]), steer_rate=grid(i["sg"]))
            if chk.rng.random() < 0.5:
                gen = CommandsSampler(want, dyn, vp(i))
            else:  # used before, with other parameters
                own = CommandsSamplerParam.from_vehicle_parameters(dt * 2, 1, 3, 2, vp(i))
                if d["ok"] and chk.rng.random() < 0.5:
                    own.acc = want.acc
                gen = CommandsSampler(own, dyn, vp(i))
                gen.generate(x0)
                gen.update_params(want)
            got = gen.generate(x0)
        except AssertionError:
            got = None
        if (got is None) == d["ok"]:
            bad("commands-allowed", "refused" if got is None else "accepted")
            return
        if got is None:
            return
    exp = {}
    for e in d["all"]:
        v0, s0 = (q4(e["v0"]), q4(e["s0"])) if "v0" in e else (x0.vx, x0.delta)
        exp[tuple(round(z, 9) for z in (v0, s0, q4(e["acc"]), q4(e["dd"])))] = e
    seen = set()
    ts = [k * dt for k in range(n + 1)]
    for tr in got:
        chk.evals += 1
        if list(tr.timestamps) != ts:
            bad("instants", f"instants {tr.timestamps}")
            return
        a = tr.values[0]
        if a != (x0 if x0 is not None else VehicleState(x=0, y=0, psi=0, vx=a.vx, delta=a.delta)):
            bad("start", f"starts in {a}")
        b = tr.values[1]
        acc, dd = (b.vx - a.vx) / float(dt), (b.delta - a.delta) / float(dt)
        key = tuple(round(z, 9) for z in (a.vx, a.delta, acc, dd))
        match = [k for k in exp if np.allclose(k, key, atol=1e-7)]
        if len(match) != 1 or match[0] in seen:
            bad("feasible", f"not wanted or twice: start {key[:2]} commands {key[2:]}")
            continue
        seen.add(match[0])
        e = exp[match[0]]
        # every step is the dynamics applied to the one before
        x = a
        for k in range(1, n + 1):
            x = dyn(x, VehicleCommands(acc=q4(e["acc"]), ddelta=q4(e["dd"])), float(dt))
            if not np.allclose(tr.values[k].as_ndarray(), x.as_ndarray(), atol=1e-9):
                bad("steps", f"sample {k}: {tr.values[k]} expected {x}")
        if "v1" in e and not np.allclose((tr.values[-1].vx, tr.values[-1].delta), (q4(e["v1"]), q4(e["s1"])), atol=1e-9):
            bad("end", f"ends in {tr.values[-1]}")
    if len(seen) != len(exp):
        bad("feasible", f"missing: {[k for k in exp if k not in seen][:4]}")


def vehicle(chk, c):
    i, d = c["i"], c["d"]
    p = vp(i, i["vlo"] / 4, i["vhi"] / 4, i["dmax"] / 4)
    dt = Decimal("0.5")
    dyn = lambda x, u, dt: x

    def same(pts, exp):
        return np.allclose(sorted(pts), sorted({round(q4(e), 12) for e in exp}), atol=1e-9) if len(set(pts)) == len(exp) else False

    g = MotionPrimitivesGenerator(MPGParam.from_vehicle_parameters(dt, 2, i["nv"], i["ns"], p), dyn, p)
    v, s = g.generate_samples()
    if not same(v, d["v"]) or not same(s, d["s"]):
        chk.violation("T03.vehicle-grid", f"primitives of {p}: speeds {v} steerings {s}", c)
    try:
        g = CommandsSampler(CommandsSamplerParam.from_vehicle_parameters(dt, 1, i["nv"], i["ns"], p), dyn, p)
        got = g.generate_samples()
        ok = same(got[0], d["a"]) and same(got[1], d["r"])
    except AssertionError:
        got, ok = "refused", False
    chk.evals += 2
    if not ok:
        chk.violation("T03.vehicle-commands", f"commands of {p}: {got}", c)
