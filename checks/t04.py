"""The bicycle planners predict with: every case of spec/BicycleMC.tla"""
import copy
import math
from decimal import Decimal

from dg_commons.dynamics import BicycleDynamics
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from vf.modelcases import psi_of, r, veh_geo


def run(chk):
    rng = chk.rng
    cases = chk.emit("BicycleMC", constants=dict(Size=1 if chk.quick else 2), workers=8, invariants=["Limited", "StandsStill", "Emit"])
    cases.sort(key=repr)
    for c in cases:
        i, d = c["i"], c["d"]
        chk.traces += 1
        chk.evals += 1
        tau = r(i["tau"])
        delta = math.atan(tau)
        vp = VehicleParameters(vx_limits=(-2, 10), acc_limits=(-8, 5), delta_max=(abs(delta) or math.atan(0.5)) + 1 / 16, ddelta_max=0.5)
        dyn = BicycleDynamics(veh_geo(), vp)
        x0 = VehicleState(x=rng.uniform(-50, 50), y=rng.uniform(-50, 50), psi=psi_of(i["a"]) + 2 * math.pi * rng.randint(-1, 1), vx=r(i["v"]), delta=delta)
        u = VehicleCommands(acc=r(i["acc"]), ddelta=r(i["dd"]))
        k = copy.deepcopy((x0, u))
        t, dpsi, tol = r(i["dt"]), r(d[2]), 1e-9
        if i["kind"] == "step":
            got = dyn.successor(x0, u, Decimal(t) if rng.random() < 0.5 else t)
        else:
            if i["kind"] == "quarter":
                t, dpsi = math.pi / 2 / abs(x0.vx * tau / 3), r(d[2]) * math.pi / 2
            got = dyn.successor_ivp(x0, u, t)
            tol = 0.02 * max(1.0, abs(x0.vx) * t)
        exp = dict(x=x0.x + r(d[0]), y=x0.y + r(d[1]), psi=x0.psi + dpsi, vx=r(d[3]), delta=x0.delta + r(d[4]))
        for f, e in exp.items():
            if i["kind"] == "wind" and f in ("x", "y", "psi"):
                continue
            tl = tol if f in ("x", "y") else min(tol, 5e-3)
            if not abs(getattr(got, f) - e) <= tl:
                chk.violation(f"T04.{i['kind']}.{f}", f"{f} {getattr(got, f)} expected {e}: from {x0} with {u} for {t} s", c)
        if (x0, u) != k:
            chk.violation("T04.operands", f"the state or command given was altered: {k} -> {x0, u}", c)
    chk.sample(cases[0])
