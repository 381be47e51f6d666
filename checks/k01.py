"""PID controllers: histories of spec/PidMC.tla"""

from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.sim.models.vehicle_utils import VehicleParameters

VP = {4: VehicleParameters(vx_limits=(-1, 3), acc_limits=(-8, 5), delta_max=1.25, ddelta_max=0.25),
      5: VehicleParameters(vx_limits=(-7, 7), acc_limits=(-9, 9), delta_max=1, ddelta_max=0.5),
      6: VehicleParameters(vx_limits=(-7, 7), acc_limits=(-9, 9), delta_max=1.25, ddelta_max=6)}


def make(ps, alt):
    if ps == 1:
        return PID(PIDParam(2.0, 0.5, 0.25, (-1, 1), (-4, 4), (-3, 3)))
    if ps == 2:
        return SpeedController(PIDParam(kP=0, kI=2, kD=0, antiwindup=(-0.5, 2), setpoint_minmax=(0, 10), output_minmax=(-8, 5)))
    if ps == 3:
        return SteerController(PIDParam(kP=0.5, kI=-1, kD=1, antiwindup=(-2, 2), setpoint_minmax=(-1, 1.5), output_minmax=(-100, 100)))
    if ps == 4:
        return SpeedController(SpeedControllerParam.from_vehicle_params(VP[4])) if alt else SpeedController.from_vehicle_params(VP[4])
    return SteerController(SteerControllerParam.from_vehicle_params(VP[ps])) if alt else SteerController.from_vehicle_params(VP[ps])


def run(chk):
    rng = chk.rng
    inv = ["Bounded", "Rest", "Emit"]
    for ps in range(1, 7):
        cases = chk.emit("PidMC", constants=dict(PS=ps, Len0=2), workers=8, label=f"PidMC {ps}", invariants=inv)
        for n in (4, 7) if chk.quick else (3, 4, 6, 8, 10):
            more = chk.emit("PidMC", constants=dict(PS=ps, Len0=n), workers=1, label=f"PidMC {ps} simulated", invariants=inv, depth=n + 1,
                            simulate=25 if chk.quick else 600)
            more.sort(key=repr)
            cases += rng.sample(more, min(len(more), 700 if chk.quick else 20000))
        cases.sort(key=repr)
        for c in cases:
            chk.traces += 1
            pid = make(ps, rng.random() < 0.5)
            other = make(ps, False)  # controllers do not share anything
            # other units of time and of the controlled quantity: the same history
            tau, sg = rng.choice([1.0, 1.0, 1 / 4096, 32.0]), rng.choice([1.0, 1.0, 1 / 1024, 64.0])
            if (tau, sg) != (1.0, 1.0):
                q, S = pid.params, lambda b: (b[0] * sg, b[1] * sg)
                pid.params = type(q)(kP=q.kP, kI=q.kI / tau, kD=q.kD * tau, antiwindup=S(q.antiwindup), setpoint_minmax=S(q.setpoint_minmax), output_minmax=S(q.output_minmax))
            t = rng.choice([0.0, 0.0, 2.5, 100.0])
            for k, a in enumerate(c["h"]):
                chk.evals += 1
                t += a["dt"][0] / a["dt"][1] * tau
                order = [lambda: a["r"] and pid.update_reference(a["r"][0] / a["r"][1] * sg), lambda: a["m"] and pid.update_measurement(a["m"][0] / a["m"][1] * sg)]
                rng.shuffle(order)
                for f in order:
                    f()
                if rng.random() < 0.3:
                    other.update_reference(1.0)
                    other.get_control(t)
                out = pid.get_control(t)
                exp = a["out"][0] / a["out"][1] * sg
                if not abs(out - exp) <= 1e-9 * max(sg, 1) and not abs(out - exp) <= 1e-6 * abs(exp):
                    chk.violation("K01.control", f"request {k + 1} of {c['h']}: {out} expected {exp} (times in {tau}, quantities in {sg}, parameters {pid.params})", c)
                    break
        chk.sample(cases[-1])
    # the parameters of one controller are tuned, the ones of the others stay
    mk = [lambda v: SpeedController(), lambda v: SteerController(), SpeedController.from_vehicle_params, SteerController.from_vehicle_params,
          lambda v: SpeedController(SpeedControllerParam.from_vehicle_params(v)), lambda v: SteerController(SteerControllerParam.from_vehicle_params(v)),
          lambda v: SpeedController(SpeedControllerParam()), lambda v: SteerController(SteerControllerParam())]
    for v in VP.values():
        for f in mk:
            chk.evals += 1
            a, b = f(v), f(v)
            b.update_reference(1.0)
            a.params.kP, a.params.antiwindup, a.params.output_minmax = 0.0, (-1e-3, 1e-3), (-1e-3, 1e-3)
            c = f(v)
            c.update_reference(1.0)
            if abs(b.get_control(0.0)) <= 2e-3 or abs(c.get_control(0.0)) <= 2e-3:
                chk.violation("K01.control", f"the parameters of one {type(a).__name__} changed another one", str(v))
